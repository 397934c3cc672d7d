"""C08: options, index ranges and missing pointers are validated as published; sentinels mean the default."""
from .common import *
from ..meta import base, func_info
from ..terms import icmp, ite, fcmp

QUICK_BUDGET = 450
BOUNDS = ('Option values: every 32-bit integer and every real for all options of an indicator at once, against the ranges, lists and defaults of the metadata tables, for lookback, both batch precisions and stream creation; index ranges: every pair of 32-bit integers; '
          'missing pointers: every subset of input and output arrays, and of stream handles. "Before anything is read or written": the arrays are objects of size zero and memory requests are trapped. Sentinels: each option alone and all at once against the published defaults, on a series of lookback+1 bars '
          'with symbolic last bars, and on the whole memory of a new stream. Acceptance by the whole call: the smallest, second smallest, default and largest value of every option (largest: lookback and batch only), every list value.')
OUTSIDE = 'Acceptance inside the range beyond the entry checks (nested calls) is decided at the listed values only; missing outBegIdx/outNBElement pointers (documented as required, not checked by the library); NaN option values.'
ASSUME = ['option values are not NaN', 'malloc/calloc succeed where the call is accepted']
INT_MIN = ta.INT_MIN


def tasks(ctx):
    out = []
    for n, f in ctx.api.items():
        ks = ['index', 'null']
        if f.opts:
            ks += ['options', 'default', 'accept']
        for k in ks:
            out.append({'key': '%s/%s' % (n, k), 'f': n, 'kind': k, 'timeout': 60 if ctx.tier == 'quick' else 300, 'w': {'default': 2, 'accept': 1}.get(k, 0)})
    out.sort(key=lambda t: -t['w'])
    return out


def run(task, ctx, R):
    tm.set_nonan(True)
    f = ctx.api[task['f']]
    h = ta.H(ctx.lk)
    {'options': t_options, 'index': t_index, 'null': t_null, 'default': t_default, 'accept': t_accept}[task['kind']](task, ctx, R, f, h)
    R.encoded |= set(h.E.encoded); R.steps = h.E.steps; R.states = h.E.nstates


def sense(g, fn, *args):
    """run a call whose every access to caller memory is trapped: (return value or None, condition of acceptance)"""
    E = g.E
    n0 = len(E.errors)
    E.stop_alloc = True
    try:
        r = g.call(fn, *args)
    except PathAbort:
        r = None
    E.stop_alloc = False
    acc = False
    for _, c in E.errors[n0:]:
        acc = bor(acc, c)
    del E.errors[n0:]
    return r, acc


def nothing(h, f, n=1):
    """arrays of size zero: any access is trapped"""
    z = lambda nm: (h.E.new(h.S, 0, 'undef', 'in', nm), 0)
    return [z(nm) for nm, _ in f.ins], z('outBegIdx'), z('outNBElement'), [z(nm) for nm, _ in f.outs]


def ints_of(tr, m, names):
    out = {}
    for nm in names:
        x = tr.vars.get(nm) if tr is not None else None
        if x is None or m is None:
            out[nm] = None
            continue
        v = m.eval(x, model_completion=True)
        out[nm] = v.as_signed_long() if hasattr(v, 'as_signed_long') else decide.num(m, x)
    return out


def ask(R, label, cond, site, mk):
    """mk(values) -> scenarios; cond must be unsatisfiable"""
    v, tr, m = decide.assert_unsat(label, cond, R, 'BOOL', 8000)
    R.reached += 1
    if v == 'sat':
        R.cands.append({'site': site, 'text': label, 'scens': mk(tr, m)})
        return True
    if v != 'unsat':
        R.status = 'undecided'; R.note = '%s: %s' % (label, v)
    return False


def good(o, v):
    """condition: v is published as acceptable for option o"""
    if o['type'] == 'int_range':
        return bor(icmp('eq', v, INT_MIN, 32), band(bnot(icmp('slt', v, o['min'], 32)), bnot(icmp('sgt', v, o['max'], 32))))
    if o['type'] == 'int_list':
        c = icmp('eq', v, INT_MIN, 32)
        for x, _ in o['list']:
            c = bor(c, icmp('eq', v, x, 32))
        return c
    if o['type'] == 'real_range':
        return bor(fcmp('oeq', v, tm.fc(ta.REAL_DEFAULT)), band(bnot(fcmp('olt', v, tm.fc(o['min']))), bnot(fcmp('ogt', v, tm.fc(o['max'])))))
    c = fcmp('oeq', v, tm.fc(ta.REAL_DEFAULT))
    for x, _ in o['list']:
        c = bor(c, fcmp('oeq', v, tm.fc(x)))
    return c


def entry_calls(f):
    return ['TA_%s_Lookback' % f.name, 'TA_' + f.name, 'TA_S_' + f.name] + (['TA_%s_StateInit' % f.name] if f.has_state else [])


def t_options(task, ctx, R, f, h):
    info = func_info(h, f.name)
    ops = info['opts'] if info else []
    if len(ops) != len(f.opts):
        R.status = 'undecided'; R.note = 'metadata does not list the options of the prototype'
        return
    vs = [tm.var(o.name, 'f64' if o.kind == 'real' else 'i32') for o in f.opts]
    ok = True
    for o, v in zip(ops, vs):
        ok = band(ok, good(o, v))
    R.bounds = 'all values of %d options' % len(vs)

    def mk(fn):
        def k(tr, m):
            d = ints_of(tr, m, [o.name for o in f.opts])
            opt = {o.name: d[o.name] if d[o.name] is not None else p['default'] for o, p in zip(f.opts, ops)}
            return [{'kind': 'options', 'f': f.name, 'fn': fn, 'opt': opt, 'meta': ops_json(ops)}]
        return k
    for fn in entry_calls(f):
        g = h.fork()
        if fn.endswith('_Lookback'):
            r, acc = sense(g, fn, *vs)
            w = -1
        elif fn.endswith('_StateInit'):
            hd = g.ptrvar('handle', (0, 0))
            r, acc = sense(g, fn, hd, *vs)
            w = ta.BAD_PARAM
        else:
            ins, ob, on, outs = nothing(g, f)
            r, acc = sense(g, fn, 0, 0, *ins, *vs, ob, on, *outs)
            w = ta.BAD_PARAM
        pc = g.S.pc if r is not None else False
        bad = band(bnot(ok), acc)
        if r is not None:
            bad = bor(bad, band(bnot(ok), band(pc, icmp('ne', r, w, 32))))
        if ask(R, '%s: options outside the published range are refused before anything is touched' % fn, bad, task['key'] + ':' + fn, mk(fn)):
            continue
        if r is not None:
            ref = icmp('slt', r, 0, 32) if w == -1 else icmp('ne', r, 0, 32)
            ask(R, '%s: options inside the published range are accepted' % fn, band(band(ok, pc), ref), task['key'] + ':' + fn, mk(fn))


def ops_json(ops):
    return [{k: o.get(k) for k in ('type', 'min', 'max', 'list', 'default')} for o in ops]


def defaults(h, f):
    info = func_info(h, f.name)
    if not info or len(info['opts']) != len(f.opts):
        return None
    return {o.name: (int(p['default']) if o.kind != 'real' else float(p['default'])) for o, p in zip(f.opts, info['opts'])}


def t_index(task, ctx, R, f, h):
    c = base(f, [3])
    s = tm.var('startIdx', 'i32'); e = tm.var('endIdx', 'i32')
    sb = icmp('slt', s, 0, 32)
    eb = band(bnot(sb), bor(icmp('slt', e, 0, 32), icmp('slt', e, s, 32)))
    val = bnot(bor(sb, eb))
    R.bounds = 'all pairs of start and end index'

    def mk(fn):
        def k(tr, m):
            d = ints_of(tr, m, ['startIdx', 'endIdx'])
            return [{'kind': 'index', 'f': f.name, 'fn': fn, 'opt': c, 's': d['startIdx'] or 0, 'e': d['endIdx'] or 0}]
        return k
    for fn in ('TA_' + f.name, 'TA_S_' + f.name):
        g = h.fork()
        ins, ob, on, outs = nothing(g, f)
        r, acc = sense(g, fn, s, e, *ins, *g.opts(f, c), ob, on, *outs)
        pc = g.S.pc if r is not None else False
        for what, cond, code in (('a negative start index', sb, ta.START_ERR), ('a negative or reversed end index', eb, ta.END_ERR)):
            bad = band(cond, acc)
            if r is not None:
                bad = bor(bad, band(cond, band(pc, icmp('ne', r, code, 32))))
            ask(R, '%s: %s is refused with code %d before anything is touched' % (fn, what, code), bad, task['key'] + ':' + fn, mk(fn))
        if r is not None:
            ask(R, '%s: valid indices are accepted' % fn, band(val, band(pc, icmp('ne', r, 0, 32))), task['key'] + ':' + fn, mk(fn))


def t_null(task, ctx, R, f, h):
    c = base(f, [3])
    # batch: every subset of arrays missing
    R.bounds = 'every subset of missing arrays and handles'
    calls = [('TA_' + f.name, False), ('TA_S_' + f.name, False)] + ([('TA_%s_BatchState' % f.name, True)] if f.has_state else [])
    for fn, st in calls:
        g = h.fork()
        ins, ob, on, outs = nothing(g, f)
        names = [nm for nm, _ in f.ins] + [nm for nm, _ in f.outs]
        bs = [tm.fresh_bool('null_' + nm) for nm in names]
        ptrs = [ite(b, (0, 0), p) for b, p in zip(bs, ins + outs)]
        anyb = False
        for b in bs: anyb = bor(anyb, b)
        if st:
            sp = (g.E.new(g.S, 0, 'undef', 'in', 'state'), 0)
            b = tm.fresh_bool('null_state')
            anyb = bor(anyb, b); names = names + ['state']
            r, acc = sense(g, fn, ite(b, (0, 0), sp), 0, 0, *ptrs[:len(ins)], ob, on, *ptrs[len(ins):])
        else:
            r, acc = sense(g, fn, 0, 0, *ptrs[:len(ins)], *g.opts(f, c), ob, on, *ptrs[len(ins):])
        bad = band(anyb, acc)
        if r is not None:
            bad = bor(bad, band(anyb, band(g.S.pc, icmp('ne', r, ta.BAD_PARAM, 32))))

        def mk(tr, m, fn=fn, names=names):
            # which subset: the single missing pointers and all of them are tried on the real build
            return [{'kind': 'null', 'f': f.name, 'fn': fn, 'opt': c, 'null': [nm]} for nm in names] + [{'kind': 'null', 'f': f.name, 'fn': fn, 'opt': c, 'null': names}]
        ask(R, '%s: a missing array or state is refused before anything is touched' % fn, bad, task['key'] + ':' + fn, mk)
    if not f.has_state:
        return
    g = h.fork()
    mk1 = lambda fn, w: (lambda tr, m: [{'kind': 'nullh', 'f': f.name, 'fn': fn, 'opt': c}])
    for fn, args in (('TA_%s_StateInit' % f.name, [(0, 0)] + g.opts(f, c)),
                     ('TA_%s_State' % f.name, [(0, 0)] + [tm.var(nm) for nm, _ in f.ins] + [g.buf(1, t, nm) for nm, t in f.outs])):
        g = h.fork()
        r, acc = sense(g, fn, *args)
        bad = acc if r is None else bor(acc, band(g.S.pc, icmp('ne', r, ta.BAD_PARAM, 32)))
        ask(R, '%s: a missing handle is refused' % fn, bad, task['key'] + ':' + fn, mk1(fn, ta.BAD_PARAM))
    # a stream step that is ready, with missing outputs
    g = h.fork()
    r, hd = g.init_state(f, c)
    lb = g.lookback(f, c)
    if r != 0 or lb > 12:
        return
    st = g.state(hd)
    pl = plain_inputs(f, c, lb + 1)
    for i in range(lb):
        g.step(f, st, [tm.fc(x[i]) for x in pl])
    bs = [tm.fresh_bool('null_' + nm) for nm, _ in f.outs]
    anyb = False
    for b in bs: anyb = bor(anyb, b)
    n0 = len(g.E.errors)
    outs = [ite(b, (0, 0), g.buf(1, t, nm)) for b, (nm, t) in zip(bs, f.outs)]
    fn = 'TA_%s_State' % f.name
    try:
        r = g.call(fn, st, *[tm.fc(x[lb]) for x in pl], *outs)
    except PathAbort:
        r = None
    acc = False
    for _, cc in g.E.errors[n0:]: acc = bor(acc, cc)
    bad = band(anyb, acc)
    if r is not None:
        bad = bor(bad, band(anyb, band(g.S.pc, icmp('ne', r, ta.BAD_PARAM, 32))))
    ask(R, '%s: a missing output is refused' % fn, bad, task['key'] + ':' + fn, lambda tr, m: [{'kind': 'nullstep', 'f': f.name, 'opt': c, 'null': [nm], 'lb': lb} for nm, _ in f.outs])


def sentinel(f, names, c):
    return {o.name: (c[o.name] if o.name not in names else ta.REAL_DEFAULT if o.kind == 'real' else INT_MIN) for o in f.opts}


def same_heap(h1, p1, h2, p2):
    """structural comparison of two memory graphs; description of the first difference"""
    seen = {}
    st = [(p1, p2, 'state')]
    while st:
        a, b, w = st.pop()
        if (a == (0, 0)) != (b == (0, 0)):
            return w + ' pointer'
        if a == (0, 0) or a[0] in seen:
            continue
        seen[a[0]] = b[0]
        x = h1.E.robj(h1.S, a[0]); y = h2.E.robj(h2.S, b[0])
        if x is None or y is None or a[1] != b[1] or x.size != y.size:
            return '%s object (sizes %s, %s)' % (w, getattr(x, 'size', None), getattr(y, 'size', None))
        if x is y:
            continue
        for k in sorted(set(x.cells) | set(y.cells)):
            u, v = x.cells.get(k), y.cells.get(k)
            if u is None or v is None:
                return '%s+%d' % (w, k)
            if type(u[1]) is tuple and type(v[1]) is tuple:
                st.append((u[1], v[1], '%s+%d' % (w, k)))
            elif u[0] != v[0] or not tm.same(u[1], v[1]):
                return '%s+%d: %s against %s' % (w, k, tm.show(u[1], 2) if type(u[1]) is not int else u[1], tm.show(v[1], 2) if type(v[1]) is not int else v[1])
    return None


def t_default(task, ctx, R, f, h):
    d = defaults(h, f)
    if d is None:
        R.status = 'undecided'; R.note = 'no defaults in the metadata'
        return
    sets = [[o.name] for o in f.opts] + ([[o.name for o in f.opts]] if len(f.opts) > 1 else [])
    small = base(f, [2, 3, 2])
    g0 = h.fork()
    for names in sets:
        c = {o.name: d[o.name] if o.name in names else small[o.name] for o in f.opts}
        s = sentinel(f, names, c)
        label = 'sentinel for ' + '+'.join(names)
        site = '%s:%s' % (task['key'], '+'.join(names))
        lb = h.fork().lookback(f, c)
        ls = h.fork().lookback(f, s)
        N = max(0, lb) + 1
        sc = {'kind': 'default', 'f': f.name, 'c': c, 's': s, 'N': N, 'ins': plain_inputs(f, c, N)}
        mk = lambda tr, m: [sc]
        if ask(R, label + ': lookback', True if type(ls) is not int else ls != lb, site, mk) or lb < 0:
            continue
        heavy = f.name in SLOW or f.name in HEAVY
        pl = sc['ins']
        k = 0 if heavy or f.name in BIG or lb > 60 else 1
        arrs = [h.arr(nm, N, vals=[tm.fc(pl[q][i]) if i < N - k or nm == 'inPeriods' else tm.var('%s_%d' % (nm, i)) for i in range(N)]) for q, (nm, _) in enumerate(f.ins)]
        for pre in ('TA_', 'TA_S_'):
            a = arrs if pre == 'TA_' else [h.arr('f' + nm, N, sort='f32', vals=[tm.fc(float(__import__('struct').unpack('f', __import__('struct').pack('f', pl[q][i]))[0]), 'f32') for i in range(N)]) for q, (nm, _) in enumerate(f.ins)]
            g1 = h.fork(); A, t1 = call_batch(g1, f, c, a, 0, N - 1, 1, prefix=pre)
            g2 = h.fork(); B, t2 = call_batch(g2, f, s, a, 0, N - 1, 1, prefix=pre)
            if t1:
                R.status = 'undecided'; R.note = '%s with the published default: %s' % (f.name, t1)
                break
            bad = None
            if t2: bad = t2
            elif A[:3] != B[:3]: bad = '%r against %r' % (B[:3], A[:3])
            elif A[2] == 1:
                for (nm, ty), x, y in zip(f.outs, A[3], B[3]):
                    if not tm.same(g1.get(x, 0, ty), g2.get(y, 0, ty)):
                        bad = nm + ' differs'
            if ask(R, '%s: %s%s %s' % (label, pre, f.name, bad or ''), bad is not None, site, mk):
                break
        else:
            if f.has_state and not (f.name == 'MAVP' and 'optInMaxPeriod' in names):
                g1 = h.fork(); r1, h1 = g1.init_state(f, c)
                g2 = h.fork(); r2, h2 = g2.init_state(f, s)
                bad = None
                if r1 != r2: bad = 'code %r against %r' % (r2, r1)
                elif r1 == 0: bad = same_heap(g1, g1.state(h1), g2, g2.state(h2))
                ask(R, '%s: new stream %s' % (label, bad or ''), bad is not None, site, mk)
    R.bounds = '%d sentinel sets' % len(sets)


def t_accept(task, ctx, R, f, h):
    info = func_info(h, f.name)
    if not info or len(info['opts']) != len(f.opts):
        R.status = 'undecided'; R.note = 'metadata does not list the options of the prototype'
        return
    small = base(f, [2, 3, 2])
    n = 0
    for o, p in zip(f.opts, info['opts']):
        if p['type'] == 'int_range':
            vs = [p['min'], p['min'] + 1, int(p['default']), p['max']]
        elif p['type'] == 'int_list':
            vs = [x for x, _ in p['list']]
        elif p['type'] == 'real_range':
            vs = [p['min'], p['default'], p['max']]
        else:
            vs = [x for x, _ in p['list']]
        for v in vs:
            c = dict(small, **{o.name: v})
            if f.name == 'MAVP' and c['optInMinPeriod'] > c['optInMaxPeriod']:
                c['optInMaxPeriod' if o.name == 'optInMinPeriod' else 'optInMinPeriod'] = v
            big = o.kind == 'int' and v > 1000
            label = 'accepts %s=%s' % (o.name, v)
            sc = {'kind': 'accept', 'f': f.name, 'opt': c, 'init': not big}
            site = '%s:%s=%s' % (task['key'], o.name, v)
            mk = lambda tr, m: [sc, dict(sc, build='asan')]
            g = h.fork()
            lb = g.lookback(f, c)
            bad = None
            if type(lb) is not int or lb < 0:
                bad = 'lookback %r' % (lb,)
            for pre in ('TA_', 'TA_S_'):
                if bad or big and f.name == 'MAVP': break
                g = h.fork()
                a = [g.arr(nm, 1, sort='f64' if pre == 'TA_' else 'f32') for nm, _ in f.ins]
                A, t = call_batch(g, f, c, a, 0, 0, 1, prefix=pre)
                if t: bad = pre + f.name + ': ' + t
                elif A[0] != 0: bad = '%s%s returns %r' % (pre, f.name, A[0])
            if not bad and f.has_state and not big:
                g = h.fork()
                try:
                    r, hd = g.init_state(f, c)
                    if r != 0: bad = 'stream creation returns %r' % (r,)
                except PathAbort:
                    bad = 'stream creation does not return: %s' % (g.E.errors[-1][0] if g.E.errors else '')
            n += 1
            ask(R, label + (': ' + bad if bad else ''), bad is not None, site, mk)
    R.bounds = '%d option values' % n


# ------------------------------------------------------------------ replay
def forbidden():
    """address of a page that may be neither read nor written"""
    import ctypes as C
    libc = C.CDLL(None, use_errno=True)
    libc.mmap.restype = C.c_void_p
    libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
    p = libc.mmap(None, 1 << 16, 0, 0x22, -1, 0)
    return p + (1 << 12)


def replay(s):
    import ctypes as C
    from ..native import lib, CT, optargs, Stream
    api = ta.parse_api()
    f = api[s['f']]
    L = lib()
    L.TA_Initialize()
    k = s['kind']

    def cargs(c):
        return optargs(f, c)

    def okval(o, v):
        if o['type'] == 'int_range': return v == INT_MIN or o['min'] <= v <= o['max']
        if o['type'] == 'real_range': return v == ta.REAL_DEFAULT or o['min'] <= v <= o['max']
        return v in (INT_MIN, ta.REAL_DEFAULT) or v in [x[0] for x in o['list']]

    def page_call(fn, s0, e0, c, null=(), state=None):
        q = lambda nm: C.c_void_p(None if nm in null else forbidden())
        pre = [C.c_int(s0), C.c_int(e0)]
        if state is not None:
            pre = [q('state')] + pre
        a = [q(nm) for nm, _ in f.ins] + ([] if state is not None else cargs(c)) + [q('outBegIdx'), q('outNBElement')] + [q(nm) for nm, _ in f.outs]
        return getattr(L, fn)(*pre, *a)
    if k == 'options':
        c = s['opt']
        ok = all(okval(o, c[p.name]) for o, p in zip(s['meta'], f.opts))
        fn = s['fn']
        if fn.endswith('_Lookback'):
            r = getattr(L, fn)(*cargs(c))
            return (r >= 0) != ok, 'lookback %d for %r' % (r, c)
        if fn.endswith('_StateInit'):
            hd = C.c_void_p(0)
            r = getattr(L, fn)(C.byref(hd), *cargs(c))
            if ok: return r != 0, 'returned %d for %r' % (r, c)
            return r != ta.BAD_PARAM or bool(hd.value), 'returned %d for %r' % (r, c)
        if not ok:
            r = page_call(fn, 0, 0, c)
            return r != ta.BAD_PARAM, 'returned %d for %r' % (r, c)
        r = nat_batch(f, c, [[1.0]] * len(f.ins), 0, 0, single=fn.startswith('TA_S_'))
        return r[0] != 0, 'returned %d for %r' % (r[0], c)
    if k == 'index':
        st, e = s['s'], s['e']
        w = ta.START_ERR if st < 0 else ta.END_ERR if e < 0 or e < st else 0
        if w:
            r = page_call(s['fn'], st, e, s['opt'])
            return r != w, 'returned %d for %d..%d' % (r, st, e)
        if e > 100000:
            return False, 'range too large to replay'
        r = nat_batch(f, s['opt'], [[1.0] * (e + 1)] * len(f.ins), st, e, single=s['fn'].startswith('TA_S_'))
        return r[0] != 0, 'returned %d for %d..%d' % (r[0], st, e)
    if k == 'null':
        r = page_call(s['fn'], 0, 0, s['opt'], s['null'], state=True if s['fn'].endswith('_BatchState') else None)
        return r != ta.BAD_PARAM, 'returned %d with %s missing' % (r, s['null'])
    if k == 'nullh':
        fn = s['fn']
        if fn.endswith('_StateInit'): r = getattr(L, fn)(C.c_void_p(None), *cargs(s['opt']))
        else: r = getattr(L, fn)(C.c_void_p(None), *[C.c_double(1.0) for _ in f.ins], *[C.byref(CT[t]()) for _, t in f.outs])
        return r != ta.BAD_PARAM, 'returned %d' % r
    if k == 'nullstep':
        st = Stream(f, s['opt'])
        pl = plain_inputs(f, s['opt'], s['lb'] + 1)
        for i in range(s['lb']): st.step([x[i] for x in pl])
        r = getattr(L, 'TA_%s_State' % f.name)(st.p, *[C.c_double(x[s['lb']]) for x in pl], *[C.c_void_p(None) if nm in s['null'] else C.byref(CT[t]()) for nm, t in f.outs])
        return r != ta.BAD_PARAM, 'returned %d with %s missing' % (r, s['null'])
    if k == 'accept':
        c = s['opt']
        l = getattr(L, 'TA_%s_Lookback' % f.name)(*cargs(c))
        if l < 0: return True, 'lookback %d' % l
        for sg in (False, True):
            r = nat_batch(f, c, [[1.0]] * len(f.ins), 0, 0, single=sg)
            if r[0] != 0: return True, 'batch returned %d' % r[0]
        if s['init'] and f.has_state:
            st = Stream(f, c)
            if st.ret != 0: return True, 'stream creation returned %d' % st.ret
            st.free()
        return False, 'accepted'
    # defaults
    N = s['N']
    fn = getattr(L, 'TA_%s_Lookback' % f.name)
    if fn(*cargs(s['c'])) != fn(*cargs(s['s'])):
        return True, 'lookback %d against %d' % (fn(*cargs(s['s'])), fn(*cargs(s['c'])))
    for ins in (s['ins'], plain_inputs(f, s['c'], N + 6)):
        n = len(ins[0])
        for sg in (False, True):
            a = nat_batch(f, s['c'], ins, 0, n - 1, single=sg); b = nat_batch(f, s['s'], ins, 0, n - 1, single=sg)
            if a[:3] != b[:3]: return True, 'batch %r against %r' % (b[:3], a[:3])
            for x, y in zip(a[3], b[3]):
                for u, v in zip(x, y):
                    if not native.close(u, v): return True, 'batch value %r against %r' % (v, u)
        if f.has_state:
            p = Stream(f, s['c']); q = Stream(f, s['s'])
            if p.ret != q.ret: return True, 'stream creation %d against %d' % (q.ret, p.ret)
            if p.ret == 0:
                for i in range(n):
                    u = p.step([x[i] for x in ins]); v = q.step([x[i] for x in ins])
                    if u[0] != v[0] or u[0] == 0 and not all(native.close(x, y) for x, y in zip(u[1], v[1])):
                        return True, 'stream bar %d: %r against %r' % (i, v, u)
    return False, 'sentinel equals the default'
