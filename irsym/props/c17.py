"""C17: published tables and text descriptions agree with the code."""
import os, re, subprocess, glob, shutil
import xml.etree.ElementTree as ET
from .common import *
from .. import repo, engine
from ..meta import func_info, info_of, cstr, rstr, rd, val, PRICE, ITYPE, OTYPE, configs
from ..runner import VERIF
from ..terms import icmp, ite, fcmp, T, Node
from .c08 import ask, good
from .c12 import differ

QUICK_BUDGET = 450
BOUNDS = ('Return codes: every 32-bit code. Metadata queries: every 32-bit parameter index. Described option ranges and defaults: every value of every option at once, through the lookback function. '
          'Descriptions: the bytes the library hands out, for all indicators, all their functions, parameters and stream fields.')
OUTSIDE = 'The Java, .NET and Excel bindings; the wording of hints beyond their agreement between the tables, the description and the list; that a compiled description file left over from an earlier build is stale.'
ASSUME = ['the description is compiled from ta_func_api.xml by the project\'s generator, as the build does']
LEVEL = 'model_checking'
COMP = {'open': 'Open', 'high': 'High', 'low': 'Low', 'close': 'Close', 'volume': 'Volume', 'openinterest': 'Open Interest', 'timestamp': 'Timestamp'}
ARG = {'open': 'inOpen', 'high': 'inHigh', 'low': 'inLow', 'close': 'inClose', 'volume': 'inVolume', 'openinterest': 'inOpenInterest', 'timestamp': 'inTimestamp'}
FLAGS = [(0x01000000, 'Overlap'), (0x04000000, 'Volume'), (0x08000000, 'Unstable Period'), (0x10000000, 'Candlestick')]
OFLAGS = [(1, 'Line'), (2, 'Dotted Line'), (4, 'Dashed Line'), (8, 'Dots'), (16, 'Histogram'), (32, 'Pattern Bool'), (64, 'Pattern Bull Bear'), (128, 'Pattern Strength'),
          (256, 'Positive'), (512, 'Negative'), (1024, 'Zero'), (2048, 'Upper Limit'), (4096, 'Lower Limit')]
KINDS = ['Lookback', 'Regular', 'StateInit', 'State', 'BatchState', 'StateFree', 'StateLoad', 'StateSave']
SPECIAL = {'StateInit': ['Pointer to Pointer'], 'State': ['Pointer'], 'BatchState': ['Pointer'], 'StateFree': ['Pointer to Pointer'],
           'StateLoad': ['Pointer to Pointer', 'Pointer to File'], 'StateSave': ['Pointer', 'Pointer to File']}


def tasks(ctx):
    out = [{'key': 'description', 'f': None, 'kind': 'desc', 'timeout': 100, 'w': 0}, {'key': 'retcodes', 'f': None, 'kind': 'codes', 'timeout': 60, 'w': 0},
           {'key': 'list', 'f': None, 'kind': 'list', 'timeout': 60, 'w': 0}, {'key': 'version', 'f': None, 'kind': 'version', 'timeout': 60, 'w': 0}]
    for n in ctx.api:
        out.append({'key': n + '/tables', 'f': n, 'kind': 'tables', 'timeout': 60, 'w': 1})
        out.append({'key': n + '/xml', 'f': n, 'kind': 'xml', 'timeout': 60, 'w': 1})
    return out


# ------------------------------------------------------------------ published texts
def header(name):
    return open(repo.ROOT + '/include/' + name, errors='replace').read()


def enum_codes():
    """name -> (value, text) of the published return codes"""
    t = re.search(r'ENUM_BEGIN\(\s*RetCode\s*\)(.*?)ENUM_END', header('ta_defs.h'), re.S).group(1)
    out = {}; k = 0
    for m in re.finditer(r'ENUM_DEFINE\(\s*(\w+)\s*,\s*\w+\s*\)\s*(?:=\s*(\w+))?\s*,?\s*(?:/\*\s*([^*\n]*?)\s*\*/)?', t):
        if m.group(2): k = int(m.group(2), 0)
        c = m.group(3)
        out[m.group(1)] = (k, None if c is None or re.fullmatch(r'\s*(0x)?[0-9A-Fa-f]+\s*', c) else c)
        k += 1
    return out


def csv_codes():
    out = {}
    for l in open(repo.ROOT + '/src/ta_common/ta_retcode.csv', errors='replace'):
        p = l.strip().split(',', 2)
        if len(p) == 3: out[p[1]] = (int(p[0], 0), p[2])
    return out


def expected_code(v, en, cs):
    """(name, set of texts) for one 32-bit code (unsigned)"""
    if 5000 <= v <= 5999:
        return 'TA_INTERNAL_ERROR', None
    for n, (k, c) in en.items():
        if k == v and n != 'TA_UNKNOWN_ERR':
            return n, cs[n][1] if n in cs else c or 'No Info'
    return 'TA_UNKNOWN_ERR', 'Unknown Error'


def xml_path():
    return repo.REPO + '/ta-lib-rt/ta_func_api.xml'


_X = {}


def groups():
    if not _X:
        for g in ET.parse(xml_path()).getroot():
            a = g.find('Abbreviation')
            _X.setdefault(a.text if a is not None else None, []).append(g)
    return _X


def func_list():
    out = {}
    for l in open(repo.REPO + '/ta-lib-rt/ta_func_list.txt', errors='replace'):
        p = l.strip().split(None, 1)
        if p: out.setdefault(p[0], []).append(p[1].strip() if len(p) > 1 else '')
    return out


def params(name):
    """[(type, name, is array, const)] of a public prototype"""
    P = ta.protos(header('ta_func.h'))
    if name not in P: return None
    body = re.sub(r'/\*.*?\*/', ' ', P[name], flags=re.S)
    out = []
    if body.split() == ['void']: return out
    for d in body.split(','):
        d = ' '.join(d.split())
        m = re.match(r'(const )?(struct )?(\w+) ?(\**) ?(\w+) ?(\[ ?\])?$', d)
        if not m:
            if d and d != 'void': out.append((d, None, False, False))
            continue
        out.append((m.group(3) + (m.group(4) or ''), m.group(5), bool(m.group(6)), bool(m.group(1))))
    return out


STYPE = {'real': 'Double', 'integer': 'Integer', 'pointer': 'Pointer'}


def with_structs(h, d):
    if d is None: return None
    pi = h.ptrvar('info', (0, 0))
    d['structs'] = []
    for k in range(d['nstruct']):
        if h.call('TA_GetStructParameterInfo', d['handle'], k, pi) != 0: break
        p = h.get(pi, 0, 'ptr')
        d['structs'].append((ITYPE[rd(h, p, 0, 4, 'i32')], rstr(h, rd(h, p, 8, 8, 'p'))))
    return d


def argnames(info):
    out = []
    for q in info['ins']:
        if q['type'] == 'price': out += [ARG[c] for c, b in PRICE if q['flags'] & b]
        else: out.append(q['name'])
    return out


def labels(info):
    out = []
    for q in info['ins']:
        if q['type'] == 'price': out += [COMP[c] for c, b in PRICE if q['flags'] & b]
        else: out.append(q['name'])
    return out


# ------------------------------------------------------------------ the comparisons: (what, agrees)
def cmp_tables(f, d):
    """metadata of one indicator against the public prototypes"""
    out = []

    def c(what, a, b): out.append((what, a == b, '%r / %r' % (a, b)))
    if d is None:
        return [('the indicator has metadata', False, '')]
    c('the name is the one looked up', d['name'], f.name)
    c('the inputs are the arguments of TA_%s, in order' % f.name, argnames(d), [a for a, _ in f.ins])
    c('the inputs have the type of the arguments', ['double' if q['type'] in ('price', 'real') else 'int' for q in d['ins']], [f.ins[0][1] if f.ins else ''] * len(d['ins']) if len({t for _, t in f.ins}) == 1 else None)
    c('the options are the arguments of TA_%s, in order' % f.name, [o['name'] for o in d['opts']], [o.name for o in f.opts])
    c('the options have the type of the arguments', [{'int_range': 'int', 'int_list': 'ma', 'real_range': 'real', 'real_list': 'real'}[o['type']] for o in d['opts']], [o.kind for o in f.opts])
    c('the outputs are the arguments of TA_%s, in order' % f.name, [o['name'] for o in d['outs']], [a for a, _ in f.outs])
    c('the outputs have the type of the arguments', [{'real': 'double', 'integer': 'int'}[o['type']] for o in d['outs']], [t for _, t in f.outs])
    c('the counts are those of the lists', (d['nin'], d['nopt'], d['nout']), (len(d['ins']), len(d['opts']), len(d['outs'])))
    for o, q in zip(d['opts'], f.opts):
        if 'min' in o:
            if q.lo is not None:
                c('the range of %s is the one in the header' % o['name'], (o['min'], o['max']), (q.lo, q.hi))
            out.append(('the range of %s is not empty and holds the default' % o['name'], o['min'] <= o['default'] <= o['max'], repr(o)))
            s = o['suggested']
            out.append(('the suggested values of %s lie in its range' % o['name'], o['min'] <= s[0] <= s[1] <= o['max'] and s[2] >= 0 or s == [0, 0, 0], repr(o)))
        else:
            ks = [k for k, _ in o.get('list', [])]
            out.append(('the default of %s is in its list' % o['name'], o['default'] in ks and len(set(ks)) == len(ks), repr(o)))
            if q.kind == 'ma':
                c('the list of %s names the published averages' % o['name'], [(k, t) for k, t in o.get('list', [])], ma_list())
        out.append(('%s has a label and a description' % o['name'], bool(o['display']) and bool(o['hint']), repr(o)))
    u = ta.unst_ids()
    c('the unstable-period mark says whether there is an identifier', bool(d['flags'] & 0x08000000), f.name in u)
    c('the candlestick mark says whether it is a pattern', bool(d['flags'] & 0x10000000), f.name.startswith('CDL'))
    c('patterns are in the group of patterns', d['group'] == 'Pattern Recognition', f.name.startswith('CDL'))
    # the other published entry points take the same arguments
    X = [('double', a, True) for a, _ in f.ins]
    O = [({'int': 'int', 'real': 'double', 'ma': 'TA_MAType'}[o.kind], o.name, False) for o in f.opts]
    R_ = [('int*', 'outBegIdx', False), ('int*', 'outNBElement', False)]
    W = [(t, a, True) for a, t in f.outs]
    I = [('int', 'startIdx', False), ('int', 'endIdx', False)]
    S1, S2, F = ('TA_%s_State*' % f.name, '_state', False), ('TA_%s_State**' % f.name, '_state', False), ('FILE*', '_file', False)
    want = {'': I + X + O + R_ + W, '_Lookback': O}
    if f.has_state:
        want.update({'_StateInit': [S2] + O, '_State': [S1] + [(t, a, False) for t, a, _ in X] + [(t + '*', a, False) for t, a, _ in W],
                     '_BatchState': [S1] + I + X + R_ + W, '_StateFree': [S2], '_StateSave': [S1, F], '_StateLoad': [S2, F]})
    for x, w in want.items():
        p = params('TA_%s%s' % (f.name, x))
        c('TA_%s%s takes the described arguments' % (f.name, x), p and [(a, b, z) for a, b, z, _ in p], w)
    p = params('TA_S_' + f.name)
    c('TA_S_%s takes the described arguments' % f.name, p and [('double' if a == 'float' and z and k else a, b, z) for a, b, z, k in p], want[''])
    return out


def ma_list():
    t = re.search(r'ENUM_BEGIN\(\s*MAType\s*\)(.*?)ENUM_END', header('ta_defs.h'), re.S).group(1)
    out = []; k = 0
    for m in re.finditer(r'ENUM_DEFINE\(\s*TA_MAType_(\w+)\s*,\s*\w+\s*\)\s*(?:=\s*(\d+))?', t):
        if m.group(2): k = int(m.group(2))
        out.append((k, m.group(1))); k += 1
    return out


def tx(e, k):
    x = e.find(k)
    return None if x is None else x.text


def num(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return s


def desc_opt(e):
    r = e.find('Range')
    return (tx(e, 'Name'), tx(e, 'ShortDescription'), tx(e, 'Type'), None if r is None else [num(tx(r, k)) for k in ('Minimum', 'Maximum', 'Precision', 'SuggestedStart', 'SuggestedEnd', 'SuggestedIncrement')], num(tx(e, 'DefaultValue')))


def want_opt(o):
    ty = {'int_range': 'Integer', 'int_list': 'MA Type', 'real_range': 'Double', 'real_list': 'Double List'}[o['type']]
    r = None
    if 'min' in o:
        r = [o['min'], o['max'], o.get('precision')] + o['suggested']
    return (o['display'], o['hint'], ty, r, o['default'])


def cmp_xml(f, d):
    """textual description of one indicator against its metadata"""
    out = []

    def c(what, a, b):
        a = str(a).strip() if isinstance(a, str) else a
        b = str(b).strip() if isinstance(b, str) else b
        out.append((what, a == b, '%r / %r' % (a, b)))
    gs = groups().get(f.name, [])
    c('the description lists the indicator once', len(gs), 1)
    if len(gs) != 1 or d is None:
        return out
    g = gs[0]
    c('group', tx(g, 'GroupId'), d['group'])
    c('short description', tx(g, 'ShortDescription'), d['hint'])
    c('camel case name', tx(g, 'CamelCaseName'), d['camel'])
    c('flags', sorted(x.text for x in g.findall('Flags/Flag')), sorted(t for b, t in FLAGS if d['flags'] & b))
    fs = {tx(x, 'Type'): x for x in g.findall('Functions/Function')}
    want = KINDS if f.has_state else KINDS[:2]
    c('the functions of the indicator', sorted(tx(x, 'Type') for x in g.findall('Functions/Function')), sorted(want))
    ins, outs = labels(d), [o['name'] for o in d['outs']]
    otypes = {'real': 'Double', 'integer': 'Integer'}
    itypes = {'price': 'Double', 'real': 'Double', 'integer': 'Integer'}
    ity = [t for q in d['ins'] for t in [itypes.get(q['type'])] * (len([1 for _, b in PRICE if q['flags'] & b]) if q['type'] == 'price' else 1)]
    for k in want:
        x = fs.get(k)
        if x is None: continue
        nm = 'TA_%s%s' % (f.name, '' if k == 'Regular' else '_' + k)
        c('%s: name' % k, tx(x, 'Name'), nm)
        c('%s: return value' % k, tx(x, 'ReturnValue'), 'Integer' if k == 'Lookback' else 'TA_Result')
        c('%s: stream and file arguments' % k, [tx(e, 'Type') for e in x.findall('SpecialInputArguments/SpecialInputArgument')], SPECIAL.get(k, []))
        idx = [('Integer', 'startIdx'), ('Integer', 'endIdx')] if k in ('Regular', 'BatchState') else []
        arr = ' Array' if k in ('Regular', 'BatchState') else ''
        c('%s: inputs' % k, [(tx(e, 'Type'), tx(e, 'Name')) for e in x.findall('RequiredInputArguments/RequiredInputArgument')],
          idx + [(t + arr, n) for t, n in zip(ity, ins)] if k in ('Regular', 'State', 'BatchState') else [])
        c('%s: options' % k, [desc_opt(e) for e in x.findall('OptionalInputArguments/OptionalInputArgument')], [want_opt(o) for o in d['opts']] if k in ('Lookback', 'Regular', 'StateInit') else [])
        ri = [('Pointer to Integer', 'outBegIdx', []), ('Pointer to Integer', 'outNBElement', [])] if k in ('Regular', 'BatchState') else []
        c('%s: outputs' % k, [(tx(e, 'Type'), tx(e, 'Name'), sorted(q.text for q in e.findall('Flags/Flag'))) for e in x.findall('OutputArguments/OutputArgument')],
          ri + [(otypes[o['type']] + arr, o['name'], sorted(t for b, t in OFLAGS if o['flags'] & b)) for o in d['outs']] if k in ('Regular', 'State', 'BatchState') else [])
    if f.has_state:
        for tag, w in (('StateMemory', list(zip(ity, ins))), ('State', [('Integer', 'mem_size'), ('Integer', 'mem_index'), ('Pointer', 'memory')] + [(STYPE.get(y), n) for y, n in d['structs']])):
            e = g.find(tag)
            c('the fields of the stream (%s)' % tag, [(tx(q, 'Type'), tx(q, 'Name')) for q in e] if e is not None else [], w)
    return out


# ------------------------------------------------------------------ tasks
def run(task, ctx, R):
    tm.set_nonan(True)
    f = ctx.api.get(task['f']) if task['f'] else None
    h = ta.H(ctx.lk, init=task['kind'] not in ('desc', 'codes', 'version'))
    gen = {'codes': [{'kind': 'code', 'code': x} for x in (0, 1, 2, 77777, 5001, 0xffff)]}.get(task['kind'], [{'kind': task['kind']}])
    if f: gen = [dict(x, f=f.name) for x in gen]

    def scens(tr, m):
        x = tr.vars.get('retCode') if tr is not None and m is not None else None
        l = ([{'kind': 'code', 'code': m.eval(x, model_completion=True).as_long()}] if x is not None else []) + gen
        return [dict(y, build='asan') for y in l] + l
    aborted = None
    try:
        globals()['t_' + task['kind']](task, ctx, R, h, f)
    except PathAbort as e:
        aborted = e
    errors_to(task['key'], h.E, R, scens)
    if aborted is not None and not h.E.errors:
        raise aborted
    R.encoded |= set(h.E.encoded); R.steps += h.E.steps; R.states += h.E.nstates


def say(R, site, rows, scen):
    for what, okay, text in rows:
        ask(R, '%s: %s' % (site, what) + ('' if okay else ': ' + text[:300]), not okay, site, lambda tr, m: [scen])


def t_tables(task, ctx, R, h, f):
    d = func_info(h, f.name)
    site = f.name + '/tables'
    say(R, site, cmp_tables(f, d), {'kind': 'tables', 'f': f.name})
    if d is None: return
    # every 32-bit index: the published entries and nothing else
    idx = tm.var('paramIndex', 'i32')
    outp = h.ptrvar('info', (0, 0))
    for fn, cnt in (('TA_GetInputParameterInfo', len(f_slots(d))), ('TA_GetOptInputParameterInfo', len(f.opts)), ('TA_GetOutputParameterInfo', len(f.outs))):
        recs = []
        for k in range(cnt):
            g = h.fork()
            recs.append(g.get(outp, 0, 'ptr') if g.call(fn, d['handle'], k, outp) == 0 else None)
        g = h.fork()
        try:
            r = g.call(fn, d['handle'], idx, outp)
        except PathAbort:
            R.status = 'undecided'; R.note = fn + ' does not return'
            continue
        inside = False; bad = False
        for k, rec in enumerate(recs):
            e = icmp('eq', idx, k, 32)
            inside = bor(inside, e)
            bad = bor(bad, band(e, bor(differ(r, 0), differ(g.get(outp, 0, 'ptr'), rec) if rec is not None else True)))
        bad = bor(bad, band(bnot(inside), differ(r, ta.BAD_PARAM)))
        ask(R, '%s: %s answers for exactly the %d arguments of the function' % (site, fn, cnt), band(g.S.pc, bad), site,
            lambda tr, m: [{'kind': 'index', 'f': f.name, 'fn': fn, 'cnt': cnt, 'idx': x} for x in (idx_of(tr, m), cnt, -1, 0)])
        if len({x for x in recs if x}) != len(recs):
            ask(R, '%s: the answers of %s are distinct' % (site, fn), fn != 'TA_GetOptInputParameterInfo' or len({o.name for o in f.opts}) == len(f.opts), site, lambda tr, m: [{'kind': 'tables', 'f': f.name}])
    R.bounds = 'every 32-bit parameter index'


def f_slots(d):
    return d['ins']


def idx_of(tr, m):
    x = tr.vars.get('paramIndex') if tr is not None else None
    return m.eval(x, model_completion=True).as_signed_long() if x is not None and m is not None else 0


def t_xml(task, ctx, R, h, f):
    d = with_structs(h, func_info(h, f.name))
    site = f.name + '/xml'
    say(R, site, cmp_xml(f, d), {'kind': 'xml', 'f': f.name})
    # the described options against the code, for every value
    gs = groups().get(f.name, [])
    x = [e for g in gs for e in g.findall('Functions/Function') if tx(e, 'Type') == 'Lookback']
    if len(x) != 1: return
    ops = [desc_opt(e) for e in x[0].findall('OptionalInputArguments/OptionalInputArgument')]
    if len(ops) != len(f.opts) or not ops: return
    vs = [tm.var(o.name, 'f64' if o.kind == 'real' else 'i32') for o in f.opts]
    ok = True
    den = []
    for o, v in zip(ops, vs):
        if o[3]:
            i = {'type': 'int_range' if o[2] == 'Integer' else 'real_range', 'min': int(o[3][0]) if o[2] == 'Integer' else o[3][0], 'max': int(o[3][1]) if o[2] == 'Integer' else o[3][1]}
        else:
            i = {'type': 'int_list', 'list': ma_list()}
        den.append(i)
        ok = band(ok, good(i, v))
    g = h.fork()
    try:
        r = g.call('TA_%s_Lookback' % f.name, *vs)
    except PathAbort:
        R.status = 'undecided'; R.note = 'lookback does not return'
        return
    ref = icmp('eq', r, -1, 32)
    bad = bor(band(ok, ref), band(bnot(ok), bnot(ref)))

    def mk(tr, m):
        out = []
        cfg = {}
        for o, v in zip(f.opts, vs):
            z = tr.vars.get(o.name) if tr is not None else None
            if m is not None and z is not None:
                try:
                    e = m.eval(z, model_completion=True)
                    cfg[o.name] = e.as_signed_long() if o.kind != 'real' else decide.real_of(e) if hasattr(decide, 'real_of') else None
                except Exception:
                    cfg[o.name] = None
        out.append({'kind': 'range', 'f': f.name, 'opt': cfg})
        return out
    ask(R, site + ': the described values are exactly the accepted ones', band(g.S.pc, bad), site, mk)
    for k, (o, od) in enumerate(zip(f.opts, ops)):
        if od[4] is None: continue
        dv = int(od[4]) if o.kind != 'real' else tm.fc(float(od[4]))
        sv = ta.INT_MIN if o.kind != 'real' else tm.fc(ta.REAL_DEFAULT)
        a, b = list(vs), list(vs)
        a[k] = dv; b[k] = sv
        ga, gb = h.fork(), h.fork()
        ra, rb = ga.call('TA_%s_Lookback' % f.name, *a), gb.call('TA_%s_Lookback' % f.name, *b)
        ask(R, site + ': the described default of %s is what the sentinel stands for' % o.name, band(band(ga.S.pc, gb.S.pc), differ(ra, rb)), site, lambda tr, m: [{'kind': 'range', 'f': f.name, 'opt': {}}])
    R.bounds = 'every value of the described options'


def t_codes(task, ctx, R, h, f):
    en, cs = enum_codes(), csv_codes()
    code = tm.var('retCode', 'i32')
    ip = h.E.new(h.S, 16, 'undef', 'out', 'info')
    g = h.fork()
    g.call('TA_SetRetCodeInfo', code, (ip, 0))
    known = {k: n for n, (k, _) in en.items() if n != 'TA_UNKNOWN_ERR' and not 5000 <= k <= 5999}
    rng = band(bnot(icmp('ult', code, 5000, 32)), icmp('ult', code, 6000, 32))
    kn = False
    for k in known: kn = bor(kn, icmp('eq', code, k, 32))
    classes = [(icmp('eq', code, k, 32), k) for k in known] + [(rng, 5000), (band(bnot(kn), bnot(rng)), 77777)]

    def mk(tr, m):
        x = tr.vars.get('retCode') if tr is not None else None
        v = m.eval(x, model_completion=True).as_long() if x is not None and m is not None else 0
        return [{'kind': 'code', 'code': v}]
    seen5 = set()
    for off, what in ((0, 'name'), (8, 'text')):
        pv = g.get((ip, off), 0, 'ptr')
        leaves = tm.leafset(pv) if type(pv) is Node else [pv]
        for cond, v in classes:
            want = expected_code(v, en, cs)[0 if what == 'name' else 1]
            if want is None:                                        # internal errors: one text for all of them
                g1 = h.fork()
                g1.call('TA_SetRetCodeInfo', 5001, (ip, 0))
                want = rstr(g1, g1.get((ip, 8), 0, 'ptr'))
            bad = False
            for q in leaves:
                try:
                    s = rstr(g, q) if type(q) is tuple else None
                except Exception:
                    s = None
                wrong = (s != want) if want is not None else not s
                if wrong:
                    for cq, a in tm.leaves(pv):
                        if tm.same(a, q): bad = bor(bad, cq)
            ask(R, 'retcodes: %s of %s' % (what, expected_code(v, en, cs)[0]), band(band(g.S.pc, cond), bad), 'retcodes', mk)
    # the published list of codes and the header agree
    for n, (k, _) in en.items():
        if n == 'TA_UNKNOWN_ERR': continue
        ask(R, 'retcodes: the list has %s with its value' % n, cs.get(n, (None,))[0] != k, 'retcodes:csv', lambda tr, m: [{'kind': 'csv'}])
    ask(R, 'retcodes: the list has nothing else', bool(set(cs) - set(en)), 'retcodes:csv', lambda tr, m: [{'kind': 'csv'}])
    R.bounds = 'every 32-bit code'


def t_list(task, ctx, R, h, f):
    say(R, 'list', cmp_list(ctx.api, {n: func_info(h, n) for n in ctx.api}), {'kind': 'list'})


def cmp_list(api, infos):
    L = func_list()
    out = [('the function list names exactly the indicators', sorted(L) == sorted(api) and all(len(v) == 1 for v in L.values()), repr(set(L) ^ set(api))),
           ('the description names exactly the indicators', sorted(map(str, groups())) == sorted(api), repr(set(groups()) ^ set(api)))]
    for n in api:
        if n in L and infos[n]:
            out.append(('%s: the list gives its description' % n, L[n][0].strip() == (infos[n]['hint'] or '').strip(), repr((L[n], infos[n]['hint']))))
    return out


VERS = ['Major', 'Minor', 'Build', 'Extra', 'Date', 'Time']


def version_ok(get):
    v = {k: get(k) for k in VERS + ['String']}
    ex = '-' + v['Extra'] if v['Extra'] else ''
    return [('the version string is made of its parts', v['String'] == '%s.%s.%s%s (%s %s)' % (v['Major'], v['Minor'], v['Build'], ex, v['Date'], v['Time']), repr(v))]


def t_version(task, ctx, R, h, f):
    say(R, 'version', version_ok(lambda k: rstr(h, h.fork().call('TA_GetVersion' + k))), {'kind': 'version'})


def generate(tmp):
    """ta_func_api.c made from ta_func_api.xml by the project's generator; path or None"""
    r_ = repo.ROOT
    d = tmp + '/gen'
    tree = d + '/tree'
    os.makedirs(tree + '/c/bin', exist_ok=True); os.makedirs(tree + '/c/src/ta_abstract', exist_ok=True); os.makedirs(d + '/obj', exist_ok=True)
    out = tree + '/c/src/ta_abstract/ta_func_api.c'
    if os.path.exists(out): return out
    srcs = [VERIF + '/irsym/gen_api.c'] + glob.glob(r_ + '/src/tools/gen_code/print_*.c') + [r_ + '/src/ta_abstract/%s.c' % x for x in ('ta_abstract', 'ta_def_ui', 'ta_group_idx')] + \
        glob.glob(r_ + '/src/ta_abstract/tables/*.c') + glob.glob(r_ + '/src/ta_common/*.c')
    from concurrent.futures import ThreadPoolExecutor

    def one(s):
        o = '%s/obj/%s.o' % (d, os.path.basename(s)[:-2])
        q = subprocess.run(['gcc', '-w', '-O0', '-DTA_GEN_CODE', '-I' + r_ + '/src/tools/gen_code'] + repo.INC + ['-c', s, '-o', o], capture_output=True, text=True)
        return o if q.returncode == 0 else None
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    if None in objs: return None
    if subprocess.run(['gcc', '-o', d + '/gen_api'] + objs + ['-lm'], capture_output=True).returncode: return None
    for a, b in ((repo.REPO + '/ta-lib-rt/ta_func_api.xml', tree + '/ta_func_api.xml'), (r_ + '/src/ta_abstract/templates', tree + '/c/src/ta_abstract/templates')):
        if not os.path.lexists(b): os.symlink(a, b)
    q = subprocess.run([d + '/gen_api'], cwd=tree + '/c/bin', capture_output=True, timeout=120)
    return out if q.returncode == 0 and os.path.exists(out) else None


def t_desc(task, ctx, R, h, f):
    src = generate(ctx.tmp)
    if src is None:
        R.status = 'undecided'; R.note = 'the description cannot be generated'
        return
    o = ctx.tmp + '/ta_func_api.ll'
    q = subprocess.run(['clang', '-S', '-emit-llvm', '-O0', '-g0', '-w'] + repo.INC + [src, '-o', o], capture_output=True, text=True)
    if q.returncode:
        ask(R, 'description: the generated file compiles', True, 'description', lambda tr, m: [{'kind': 'desc'}])
        return
    h2 = ta.H(engine.Linker([('ta_func_api', o)]), init=False)
    p = h2.call('TA_FunctionDescriptionXML')
    raw = open(xml_path(), 'rb').read()
    # the description must be a string: its bytes, then the closing zero, all inside the object
    k = tm.var('position', 'i32')
    n = len(raw)
    bad = None
    last = None
    for i in range(n + 1):
        try:
            c = h2.E.load(h2.S, (p[0], p[1] + i), 1, 'i8')
        except Exception as e:
            bad = 'byte %d of %d cannot be read: the description is not closed by a zero' % (i, n + 1)
            break
        w = raw[i] if i < n else 0
        if type(c) is not int or c & 255 != w:
            bad = 'byte %d is %r instead of %d' % (i, c, w)
            break
    ask(R, 'description: the library hands out the described text as a string' + (': ' + bad if bad else ''), bad is not None, 'description', lambda tr, m: [{'kind': 'desc'}])
    R.encoded |= set(h2.E.encoded)
    R.bounds = '%d bytes' % n


# ------------------------------------------------------------------ replay on the real build
def nat_full(L, name):
    """metadata in the form of meta.func_info, from the compiled library"""
    import ctypes as C
    from .c12 import nat_handle, nat_info
    r, hd = nat_handle(L, name)
    if r != 0: return None
    d = nat_info(L, hd)
    if d is None: return None
    fi = d['fi']
    s = lambda b: None if b is None else b.decode('latin1')
    o = {'handle': hd, 'name': s(fi.name), 'group': s(fi.group), 'hint': s(fi.hint), 'camel': s(fi.camel), 'flags': fi.flags, 'nin': fi.nin, 'nopt': fi.nopt, 'nout': fi.nout}
    o['ins'] = [{'type': ITYPE[q.type], 'name': s(q.name), 'flags': q.flags} for q in d['ins']]
    o['outs'] = [{'type': ['real', 'integer'][q.type], 'name': s(q.name), 'flags': q.flags} for q in d['outs']]
    o['structs'] = []
    for j in range(fi.nst):
        z = C.POINTER(C.c_void_p)()
        if L.TA_GetStructParameterInfo(hd, j, C.byref(z)) != 0: break
        o['structs'].append((ITYPE[C.cast(z, C.POINTER(C.c_int))[0]], s(C.cast(z, C.POINTER(C.c_char_p))[1])))
    o['opts'] = []
    for q in d['opts']:
        x = {'type': OTYPE[q.type], 'name': s(q.name), 'flags': q.flags, 'display': s(q.display), 'default': q.default, 'hint': None}
        x['hint'] = s(C.cast(C.addressof(q) + 48, C.POINTER(C.c_char_p))[0])
        if q.data:
            if x['type'] == 'real_range':
                z = C.cast(q.data, C.POINTER(C.c_double))
                x['min'], x['max'], x['suggested'] = z[0], z[1], [z[3], z[4], z[5]]; x['precision'] = C.cast(q.data + 16, C.POINTER(C.c_int))[0]
            elif x['type'] == 'int_range':
                z = C.cast(q.data, C.POINTER(C.c_int))
                x['min'], x['max'], x['suggested'] = z[0], z[1], [z[2], z[3], z[4]]
            else:
                n = C.cast(q.data + 8, C.POINTER(C.c_int))[0]; base_ = C.cast(q.data, C.POINTER(C.c_void_p))[0]
                x['list'] = [(C.cast(base_ + 16 * j, C.POINTER(C.c_int if x['type'] == 'int_list' else C.c_double))[0], s(C.cast(base_ + 16 * j + 8, C.POINTER(C.c_char_p))[0])) for j in range(n)]
        o['opts'].append(x)
    return o


def replay(s):
    import ctypes as C
    from ..native import lib
    k = s['kind']
    api = ta.parse_api()
    f = api.get(s.get('f'))
    if k == 'desc':
        d = __import__('tempfile').mkdtemp(prefix='irsym_c17_')
        try:
            src = generate(d)
            if src is None: return False, 'not generated'
            q = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-fsanitize=address'] + repo.INC + [src, '-o', d + '/x.so'], capture_output=True, text=True)
            if q.returncode: return True, 'the generated description does not compile: ' + q.stderr[:200]
            t = open(d + '/m.c', 'w')
            t.write('#include <stdio.h>\n#include <string.h>\nconst char *TA_FunctionDescriptionXML(void);int main(int c,char**v){const char*p=TA_FunctionDescriptionXML();FILE*f=fopen(v[1],"rb");size_t i=0;int x;'
                    'while((x=getc(f))!=EOF){if((unsigned char)p[i]!=x){printf("byte %zu differs\\n",i);return 3;}i++;}if(p[i]!=0){printf("no closing zero\\n");return 3;}return 0;}')
            t.close()
            q = subprocess.run(['gcc', '-w', '-g', '-fsanitize=address'] + repo.INC + [src, d + '/m.c', '-o', d + '/m'], capture_output=True, text=True)
            if q.returncode: return True, 'does not compile: ' + q.stderr[:200]
            q = subprocess.run([d + '/m', xml_path()], capture_output=True, text=True, errors='replace')
            return q.returncode != 0, (q.stdout + ' '.join(q.stderr.split('\n')[1:3]))[:300]
        finally:
            shutil.rmtree(d, True)
    L = lib(); L.TA_Initialize()
    if k == 'code':
        class RI(C.Structure):
            _fields_ = [('e', C.c_char_p), ('i', C.c_char_p)]
        x = RI()
        L.TA_SetRetCodeInfo(C.c_uint(s['code']), C.byref(x))
        w = expected_code(s['code'] & 0xffffffff, enum_codes(), csv_codes())
        got = ((x.e or b'').decode('latin1'), (x.i or b'').decode('latin1'))
        if w[1] is None:
            y = type(x)()
            L.TA_SetRetCodeInfo(C.c_uint(5001), C.byref(y))
            w = (w[0], (y.i or b'').decode('latin1'))
        return got[0] != w[0] or (w[1] is not None and got[1] != w[1]) or not got[1], 'code %d gives %r, published %r' % (s['code'], got, w)
    if k == 'csv':
        en, cs = enum_codes(), csv_codes()
        a = {n: v[0] for n, v in en.items() if n != 'TA_UNKNOWN_ERR'}; b = {n: v[0] for n, v in cs.items()}
        return a != b, 'header and list of codes differ: %r' % (set(a.items()) ^ set(b.items()))
    if k == 'version':
        def get(n):
            fn = getattr(L, 'TA_GetVersion' + n); fn.restype = C.c_char_p
            return fn().decode('latin1')
        rows = version_ok(get)
    elif k == 'list':
        rows = cmp_list(api, {n: nat_full(L, n) for n in api})
    elif k == 'tables':
        rows = cmp_tables(f, nat_full(L, f.name))
    elif k == 'xml':
        rows = cmp_xml(f, nat_full(L, f.name))
    elif k == 'index':
        from .c12 import nat_handle
        r, hd = nat_handle(L, f.name)
        p = C.c_void_p(0)
        r = getattr(L, s['fn'])(hd, C.c_uint(s['idx'] & 0xffffffff), C.byref(p))
        want = 0 if 0 <= s['idx'] < s['cnt'] else ta.BAD_PARAM
        return r != want, '%s(%s, %d) returns %d, the function has %d' % (s['fn'], f.name, s['idx'], r, s['cnt'])
    elif k == 'range':
        return replay_range(L, f, s)
    bad = [(w, t) for w, okay, t in rows if not okay]
    return bool(bad), '; '.join('%s: %s: %s' % (s.get('f', k), w, t) for w, t in bad)[:500]


def replay_range(L, f, s):
    import ctypes as C
    x = [e for g in groups().get(f.name, []) for e in g.findall('Functions/Function') if tx(e, 'Type') == 'Lookback']
    ops = [desc_opt(e) for e in x[0].findall('OptionalInputArguments/OptionalInputArgument')]
    fn = getattr(L, 'TA_%s_Lookback' % f.name)
    base_ = [int(o[4]) if q.kind != 'real' else float(o[4]) for o, q in zip(ops, f.opts)]
    call = lambda v: fn(*[C.c_double(z) if q.kind == 'real' else C.c_int(int(z)) for z, q in zip(v, f.opts)])
    tries = []
    if s.get('opt') and all(s['opt'].get(q.name) is not None for q in f.opts): tries.append([s['opt'][q.name] for q in f.opts])
    for k, (o, q) in enumerate(zip(ops, f.opts)):
        lo, hi = (o[3][0], o[3][1]) if o[3] else (0, len(ma_list()) - 1)
        for z in ((lo - 1, lo, hi, hi + 1, lo + 1, hi - 1) if q.kind != 'real' else (lo, hi, lo - 1, hi + 1, lo - 1e-9, hi + 1e-9, lo * 1.01 - 1e-12, hi * 1.01 + 1e-12)):
            v = list(base_); v[k] = z; tries.append(v)
    for v in tries:
        okay = all((z == (ta.INT_MIN if q.kind != 'real' else ta.REAL_DEFAULT)) or (o[3][0] <= z <= o[3][1] if o[3] else 0 <= z < len(ma_list())) for z, o, q in zip(v, ops, f.opts))
        r = call(v)
        if okay != (r != -1): return True, 'TA_%s_Lookback%r returns %d, the description %s these values' % (f.name, tuple(v), r, 'lists' if okay else 'excludes')
    vs = [base_]
    for k, q in enumerate(f.opts):
        if q.kind == 'int':
            v = list(base_); v[k] = min(base_[k] + 3, ops[k][3][1]); vs.append(v)
    for k, q in enumerate(f.opts):
        for v in vs:
            a = list(v); a[k] = base_[k]
            b = list(v); b[k] = ta.INT_MIN if q.kind != 'real' else ta.REAL_DEFAULT
            if call(a) != call(b): return True, 'TA_%s_Lookback: the sentinel for %s gives %d, the described default %r gives %d' % (f.name, q.name, call(b), base_[k], call(a))
    return False, 'as described'
