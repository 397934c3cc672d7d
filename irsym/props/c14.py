"""C14: global settings are exact, isolated and have only their stated effect."""
from .common import *
from ..meta import UNSTF, CRANGE, CFACT
from ..runner import VERIF
from .. import smt
from ..terms import icmp, ibin, ite

EXTRA = [VERIF + '/irsym/probe.c']
QUICK_BUDGET = 450
BOUNDS = ('Set and get calls: every 32-bit identifier and every value, over unknown previous settings. Lookback: per listed option configuration, all 25 unstable periods unknown from 0 to 100000 at once, both compatibility modes. '
          'Effect on results: symbolic series of lookback+3 bars, unstable period 2 against 0, and all settings that do not concern the indicator changed at once.')
OUTSIDE = 'Longer series and larger periods; unstable periods above 100000; that an unstable period only drops leading outputs is checked for the indicators whose recursion starts at the first bar (not for DEMA, TEMA, TRIX, MACD, MACDFIX, MACDEXT, STOCH, STOCHF with exponential averages, whose inner averages are seeded later); leading DX bars without any direction, which repeat the value before them or are 0 when there is none.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'rangeType is a published value, avgPeriod >= 0, compatibility is a published value']

NU = 25
DEF = list(zip(CRANGE, [10, 10, 10, 10, 0, 0, 10, 10, 5, 5, 5], CFACT))
OWN = {n: n for n in ('ADX', 'ATR', 'CMO', 'DX', 'EMA', 'HT_DCPERIOD', 'HT_DCPHASE', 'HT_PHASOR', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE', 'IMI', 'KAMA', 'MAMA', 'MFI',
                       'MINUS_DI', 'MINUS_DM', 'NATR', 'PLUS_DI', 'PLUS_DM', 'RSI', 'T3', 'WLMA')}
OWN['ADXR'] = 'ADX'
NOT_AT_1 = ('MINUS_DI', 'MINUS_DM', 'PLUS_DI', 'PLUS_DM')      # no smoothing with a period of 1
LATER = {'DEMA', 'TEMA', 'TRIX', 'MACD', 'MACDFIX', 'MACDEXT', 'STOCH', 'STOCHF', 'STOCHRSI'}
MA_ID = {1: 'EMA', 3: 'EMA', 4: 'EMA', 6: 'KAMA', 7: 'MAMA', 8: 'T3', 9: 'WLMA'}
SEEDED_LATER = {3, 4}


def ids_of(f, c):
    """published identifiers that concern the call"""
    n = f.name
    p = c.get('optInTimePeriod', 99)
    out = set()
    if n in OWN and not (n in NOT_AT_1 and p == 1):
        out.add(OWN[n])
    if n == 'STOCHRSI':
        out.add('RSI')
    if n in ('DEMA', 'TEMA', 'TRIX', 'MACD', 'MACDFIX', 'ADOSC'):
        out.add('EMA')
    for o in f.opts:
        if o.kind == 'ma' and c[o.name] in MA_ID:
            out.add(MA_ID[c[o.name]])
    return out


def compat_matters(f, c):
    n = f.name
    return n in ('EMA', 'DEMA', 'TEMA', 'TRIX', 'MACD', 'MACDFIX', 'ADOSC', 'CMO', 'RSI', 'STOCHRSI') or n == 'T3' or n == 'WLMA' or any(o.kind == 'ma' and c[o.name] in (1, 3, 4, 8, 9) for o in f.opts)


def malb(p, t, u):
    """lookback of the average of type t as a function of the unstable periods"""
    if p <= 1:
        return 0
    b = {0: p - 1, 1: p - 1, 2: p - 1, 3: p - 1, 4: p - 1, 5: p - 1, 6: p, 7: 32, 8: 6 * (p - 1), 9: p - 1}[t]
    if t in MA_ID:
        b = ibin('add', u[MA_ID[t]], b, 32)
    return ibin('mul', b, {3: 2, 4: 3}.get(t, 1), 32)


def concerns(f, c):
    """identifiers that change the call: without the averages of period 1, which smooth nothing"""
    z = {k: 0 for k in UNSTF}
    return {k for k in ids_of(f, c) if extra(f, c, dict(z, **{k: 5})) != extra(f, c, z)}


def mx(a, b):
    return ite(icmp('slt', a, b, 32), b, a) if type(a) is not int or type(b) is not int else max(a, b)


def extra(f, c, u):
    """what the unstable periods add to the lookback, up to a constant (the value at 0 is compared separately)"""
    n = f.name
    add = lambda a, b: ibin('add', a, b, 32)
    mul = lambda a, k: ibin('mul', a, k, 32)
    if n in OWN:
        return 0 if n in NOT_AT_1 and c['optInTimePeriod'] == 1 else u[OWN[n]]
    if n == 'DEMA': return mul(u['EMA'], 2)
    if n in ('TEMA', 'TRIX'): return mul(u['EMA'], 3)
    if n in ('MACD', 'MACDFIX'): return mul(u['EMA'], 2)
    if n == 'ADOSC': return u['EMA']
    v = [c[o.name] for o in f.opts]
    if n == 'MA': return malb(v[0], v[-1], u)
    if n == 'BBANDS': return mx(malb(v[0], v[-1], u), v[0] - 1)      # the deviation needs its whole period
    if n in ('APO', 'PPO'): return malb(max(v[0], v[1]), v[2], u)
    if n == 'MAVP': return malb(v[1], v[2], u)
    if n == 'MACDEXT': return add(mx(malb(v[0], v[1], u), malb(v[2], v[3], u)), malb(v[4], v[5], u))
    if n == 'STOCH': return add(malb(v[1], v[2], u), malb(v[3], v[4], u))
    if n == 'STOCHF': return malb(v[1], v[2], u)
    if n == 'STOCHRSI': return add(u['RSI'], malb(v[2], v[3], u))
    return 0


def shift(f, c, mine):
    """bars a call starts later when its unstable periods are 2"""
    z = {k: 0 for k in UNSTF}
    return extra(f, c, dict(z, **{k: 2 for k in mine})) - extra(f, c, z)


def tasks(ctx):
    q = ctx.tier == 'quick'
    out = [{'key': 'settings/' + k, 'kind': k, 'timeout': 60, 'w': 0} for k in ('unstable', 'unstable-get', 'compatibility', 'candle', 'candle-restore', 'initialize')]
    from ..meta import base
    def filt(f, c):
        return not c.unst and not c.compat and (not f.name.startswith('CDL') or c.name == 'cdl-small')
    return out + [dict(t, kind='effect') for t in state_tasks(ctx, 45 if q else 200, filt)]


def run(task, ctx, R):
    k = task['kind']
    tm.set_nonan(True)
    if k == 'effect':
        return run_effect(task, ctx, R)
    {'unstable': t_unst, 'unstable-get': t_uget, 'compatibility': t_compat, 'candle': t_candle, 'candle-restore': t_restore, 'initialize': t_init}[k](task, ctx, R)


def dirty(h):
    """unknown previous settings, written through the interface"""
    pu = []
    for i in range(NU):
        v = tm.var('u_%d' % i, 'i32'); pu.append(v)
        h.call('TA_SetUnstablePeriod', i, v)
    pc = tm.var('compat', 'i32')
    h.call('TA_SetCompatibility', pc)
    cs = []
    for i in range(11):
        t = (tm.var('range_%d' % i, 'i32'), tm.var('avg_%d' % i, 'i32'), tm.var('factor_%d' % i, 'f64'))
        h.call('TA_SetCandleSettings', i, *t)
        cs.append(t)
    return pu, pc, cs


def candle(h, i):
    a, b, c = h.buf(1, 'int'), h.buf(1, 'int'), h.buf(1, 'double')
    r = h.call('irsym_candle', i, a, b, c)
    assert r == 0
    return h.get(a, 0, 'int'), h.get(b, 0, 'int'), h.get(c)


class Chk:
    def __init__(self, R, site, op, pre=True):
        self.R = R; self.site = site; self.op = op; self.pre = pre; self.bad = 0

    def cond(self, label, cond):
        if self.bad: return
        cond = band(self.pre, cond)
        v, tr, m = decide.assert_unsat(label, cond, self.R, 'BOOL', 6000)
        self.R.reached += 1
        if v == 'sat':
            self.hit(label, tr, m)
        elif v != 'unsat':
            self.R.status = 'undecided'; self.R.note = '%s: %s' % (label, v)

    def eqi(self, label, x, w):
        if x is UNDEF:
            return self.hit(label + ' not written', None, None)
        self.cond(label, icmp('ne', decide.known(x, 'int'), w, 32))

    def eqf(self, label, x, w):
        if self.bad: return
        if tm.same(x, w):
            return decide.assert_unsat(label, False, self.R)
        tr = smt.Tr('UF')
        A = [smt.neq(tr, decide.known(x, 'double'), w, 'double')] + ([tr.diagram(self.pre)] if self.pre is not True else [])
        r, m = smt.solve(A, 6000, want_model=True)
        self.R.queries.append((label, 'UF', r)); self.R.reached += 1
        if r == 'sat':
            self.hit(label, tr, m)
        elif r != 'unsat':
            self.R.status = 'undecided'; self.R.note = '%s: %s' % (label, r)

    def hit(self, label, tr, m):
        self.bad += 1
        sc = {'kind': self.op, 'build': 'probe'}
        import z3
        for nm in ('id', 'value', 'range', 'avg'):
            x = tr.vars.get(nm) if tr is not None else None
            v = m.eval(x, model_completion=True) if x is not None and m is not None else None
            sc[nm] = v.as_signed_long() if v is not None else 1
        self.R.cands.append({'site': self.site, 'text': 'after %s with %s: %s' % (self.op, {k: sc[k] for k in ('id', 'value')}, label), 'scens': [sc, dict(sc, build='asan')]})

    def errors(self, E):
        for msg, cond in E.errors[:4]:
            self.cond('memory: ' + msg, cond)
        if not E.errors:
            decide.assert_unsat('memory obligations', False, self.R)


def after(C, h, pu, pc, cs):
    for j in range(NU):
        C.eqi('unstable period %d' % j, h.call('TA_GetUnstablePeriod', j), pu[j])
    C.eqi('compatibility', h.call('TA_GetCompatibility'), pc)
    for j in range(11):
        g = candle(h, j)
        C.eqi('candle setting %d range type' % j, g[0], cs[j][0])
        C.eqi('candle setting %d average period' % j, g[1], cs[j][1])
        C.eqf('candle setting %d factor' % j, g[2], cs[j][2])


def t_unst(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    pu, pc, cs = dirty(h)
    n0 = len(E.errors)
    i = tm.var('id', 'i32'); v = tm.var('value', 'i32')
    r = h.call('TA_SetUnstablePeriod', i, v)
    C = Chk(R, task['key'], 'unstable')
    C.errors(E)
    ok = band(bnot(icmp('slt', i, 0, 32)), bnot(icmp('sgt', i, NU, 32)))
    C.eqi('return code', r, ite(ok, 0, ta.BAD_PARAM))
    allid = icmp('eq', i, NU, 32)
    if not C.bad:
        after(C, h, [ite(bor(allid, icmp('eq', i, j, 32)), v, pu[j]) for j in range(NU)], pc, cs)
    fin(R, E, 'every 32-bit identifier and value')


def t_uget(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    pu, pc, cs = dirty(h)
    i = tm.var('id', 'i32')
    r = h.call('TA_GetUnstablePeriod', i)
    C = Chk(R, task['key'], 'unstable-get')
    C.errors(E)
    for j in range(NU):
        C.cond('value of identifier %d' % j, band(icmp('eq', i, j, 32), icmp('ne', r, pu[j], 32)))
    C.cond('value of an unknown identifier', band(bor(icmp('slt', i, 0, 32), icmp('sgt', i, NU, 32)), icmp('ne', r, 0, 32)))
    if not C.bad:
        after(C, h, pu, pc, cs)
    fin(R, E, 'every 32-bit identifier')


def t_compat(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    pu, pc, cs = dirty(h)
    v = tm.var('value', 'i32')
    C = Chk(R, task['key'], 'compatibility', bor(icmp('eq', v, 0, 32), icmp('eq', v, 1, 32)))
    r = h.call('TA_SetCompatibility', v)
    C.errors(E)
    C.eqi('return code', r, 0)
    after(C, h, pu, v, cs)
    fin(R, E, 'both compatibility modes')


def t_candle(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    pu, pc, cs = dirty(h)
    i = tm.var('id', 'i32'); n = (tm.var('range', 'i32'), tm.var('avg', 'i32'), tm.var('factor', 'f64'))
    r = h.call('TA_SetCandleSettings', i, *n)
    pre = bnot(icmp('slt', n[0], 0, 32))
    pre = band(band(pre, icmp('slt', n[0], 3, 32)), bnot(icmp('slt', n[1], 0, 32)))
    C = Chk(R, task['key'], 'candle', pre)
    C.errors(E)
    C.eqi('return code', r, ite(icmp('ult', i, 11, 32), 0, ta.BAD_PARAM))
    if not C.bad:
        after(C, h, pu, pc, [tuple(ite(icmp('eq', i, j, 32), n[k], cs[j][k]) for k in range(3)) for j in range(11)])
    fin(R, E, 'every 32-bit identifier, every published range type, average period >= 0 and factor')


def t_restore(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    pu, pc, cs = dirty(h)
    i = tm.var('id', 'i32')
    r = h.call('TA_RestoreCandleDefaultSettings', i)
    C = Chk(R, task['key'], 'candle-restore')
    C.errors(E)
    C.eqi('return code', r, ite(icmp('ule', i, 11, 32), 0, ta.BAD_PARAM))
    al = icmp('eq', i, 11, 32)
    if not C.bad:
        after(C, h, pu, pc, [tuple(ite(bor(al, icmp('eq', i, j, 32)), tm.fc(DEF[j][k]) if k == 2 else DEF[j][k], cs[j][k]) for k in range(3)) for j in range(11)])
    fin(R, E, 'every 32-bit identifier')


def t_init(task, ctx, R):
    h = ta.H(ctx.lk); E = h.E
    dirty(h)
    r0 = h.call('TA_Shutdown'); r1 = h.call('TA_Shutdown'); r2 = h.call('TA_Initialize')
    C = Chk(R, task['key'], 'initialize')
    C.errors(E)
    C.eqi('return code of shutdown', r0, 0)
    C.eqi('return code of shutdown without initialization', r1, ta.LIB_NOT_INIT)
    C.eqi('return code of initialization', r2, 0)
    D = [(a, b, tm.fc(c)) for a, b, c in DEF]
    after(C, h, [0] * NU, 0, D)
    dirty(h)
    C.eqi('return code of a second initialization', h.call('TA_Initialize'), 0)
    after(C, h, [0] * NU, 0, D)
    fin(R, E, 'unknown previous settings')


def fin(R, E, b):
    R.bounds = b
    R.encoded |= set(E.encoded); R.steps = E.steps; R.states = E.nstates


# ------------------------------------------------------------------ effect on the indicators
def run_effect(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    h0 = mkh(ctx, f); E = h0.E
    site = task['key']
    mine = concerns(f, c)
    scen = {'kind': 'lookback', 'f': f.name, 'cfg': cfg.json()}
    # --- lookback, all unstable periods unknown
    u = {k: tm.var('u_' + k, 'i32') for k, i in UNSTF.items() if 0 <= i < NU}
    lim = True
    for v in u.values():
        lim = band(lim, band(bnot(icmp('slt', v, 0, 32)), icmp('slt', v, 100001, 32)))
    z = {k: 0 for k in u}
    lb = None
    for compat in (0, 1):
        g = h0.fork()
        cfg.apply(g)
        g.call('TA_SetCompatibility', compat)
        l0 = g.lookback(f, c)
        if compat == 0: lb = l0
        if type(l0) is not int:
            R.status = 'undecided'; R.note = 'lookback not a number'; break
        for k, v in u.items():
            g.call('TA_SetUnstablePeriod', UNSTF[k], v)
        l = g.lookback(f, c)
        want = ibin('add', extra(f, c, u), l0 - extra(f, c, z), 32)
        vd, tr, m = decide.assert_unsat('lookback under compatibility %d' % compat, band(lim, icmp('ne', l, want, 32)), R, 'BOOL', 8000)
        R.reached += 1
        if vd == 'sat':
            un = {k: (m.eval(tr.vars['u_' + k], model_completion=True).as_signed_long() if tr is not None and 'u_' + k in tr.vars else 0) for k in u}
            R.cands.append({'site': site, 'text': 'lookback is not the one without unstable period plus what the settings %s add' % {k: v for k, v in un.items() if v}, 'scens': [dict(scen, compat=compat, un=un)]})
        elif vd != 'unsat':
            R.status = 'undecided'; R.note = 'lookback: %s' % vd
    if R.cands:
        return finish(task, E, R)
    N = lb + 3
    # --- settings that do not concern the call
    ins = series(h0, f, c, N, sym=2)
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, site, h0, ins)
    a = h0.fork(); cfg.apply(a)
    A, t = call_batch(a, f, c, ins, 0, N - 1, N)
    sc = {'kind': 'other', 'f': f.name, 'cfg': cfg.json(), 'N': N, 'ins': plain_inputs(f, c, N)}
    if t:
        C.fail('default settings: ' + t, sc); return finish(task, E, R)
    if f.name not in SLOW2:
        b = h0.fork(); cfg.apply(b)
        for k, i in UNSTF.items():
            if 0 <= i < NU and k not in mine:
                b.call('TA_SetUnstablePeriod', i, 2)
        if not compat_matters(f, c):
            b.call('TA_SetCompatibility', 1)
        if not f.name.startswith('CDL'):
            for i in range(11):
                b.call('TA_SetCandleSettings', i, (CRANGE[i] + 1) % 3, 7, tm.fc(0.75))
        B, t = call_batch(b, f, c, ins, 0, N - 1, N)
        if t:
            C.fail('other settings changed: ' + t, sc)
        else:
            d = code_eq(R, 'other settings changed', [('return code', B[0], A[0]), ('begin index', B[1], A[1]), ('element count', B[2], A[2])], names_of(f), N)
            if d: C.fail(d[0], sc)
            else: C.add_runs('other settings changed', vals(b, f, B[3], A[2]), vals(a, f, A[3], A[2]), sc, n=A[2])
    # --- its own unstable period
    direct = mine and f.name not in LATER and not any(o.kind == 'ma' and c[o.name] in SEEDED_LATER for o in f.opts)
    if direct and f.name not in SLOW2 and (shift(f, c, mine) == 2 or not mama(c)):    # otherwise the average is computed from a later bar
        b = h0.fork(); cfg.apply(b)
        sc = dict(sc, kind='own')
        k = 2
        for x in mine:
            b.call('TA_SetUnstablePeriod', UNSTF[x], k)
        B, t = call_batch(b, f, c, ins, 0, N - 1, N)
        if t:
            C.fail('unstable period %d: %s' % (k, t), sc)
        else:
            sh = shift(f, c, mine)
            d = code_eq(R, 'unstable period %d' % k, [('return code', B[0], A[0]), ('begin index', B[1], A[1] + sh), ('element count', B[2], A[2] - sh)], names_of(f), N)
            if d: C.fail(d[0], sc)
            else: C.add_runs('unstable period %d' % k, vals(b, f, B[3], A[2] - sh), vals(a, f, A[3], A[2]), sc, a0=0, b0=sh, n=A[2] - sh)
    C.decide('value changes with a setting that must not change it')
    finish(task, E, R)


# ------------------------------------------------------------------ replay
def replay(s):
    import ctypes as C
    from ..native import lib, setup
    L = lib()
    k = s['kind']
    if k in ('lookback', 'other', 'own'):
        f = ta.parse_api()[s['f']]; c = s['cfg']['opt']
        if k == 'lookback':
            setup(s['cfg']); L.TA_SetCompatibility(C.c_int(s['compat']))
            from ..native import optargs
            fn = getattr(L, 'TA_%s_Lookback' % f.name)
            l0 = fn(*optargs(f, c))
            for nm, v in s['un'].items():
                L.TA_SetUnstablePeriod(C.c_int(UNSTF[nm]), C.c_int(v))
            l = fn(*optargs(f, c))
            z = {x: 0 for x in s['un']}
            w = l0 + extra(f, c, s['un']) - extra(f, c, z)
            return l != w, 'lookback %d, expected %d' % (l, w)
        setup(s['cfg'])
        a = nat_batch(f, c, s['ins'], 0, s['N'] - 1)
        setup(s['cfg'])
        mine = concerns(f, c)
        sh = 0
        if k == 'own':
            sh = shift(f, c, mine)
            for x in mine: L.TA_SetUnstablePeriod(C.c_int(UNSTF[x]), C.c_int(2))
        else:
            for x, i in UNSTF.items():
                if 0 <= i < NU and x not in mine: L.TA_SetUnstablePeriod(C.c_int(i), C.c_int(2))
            if not compat_matters(f, c): L.TA_SetCompatibility(C.c_int(1))
            if not f.name.startswith('CDL'):
                for i in range(11): L.TA_SetCandleSettings(C.c_int(i), C.c_int((CRANGE[i] + 1) % 3), C.c_int(7), C.c_double(0.75))
        b = nat_batch(f, c, s['ins'], 0, s['N'] - 1)
        if (b[0], b[1], b[2]) != (a[0], a[1] + sh, a[2] - sh):
            return True, '%r against %r' % (b[:3], a[:3])
        for (nm, _), x, y in zip(f.outs, b[3], a[3]):
            lead = f.name == 'DX' and k == 'own'
            for i in range(b[2]):
                if lead and x[i] == 0 and y[i + sh] == y[i + sh - 1]:
                    continue        # no direction: the value before, which the first bar of a call does not have
                lead = False
                if not native.close(x[i], y[i + sh]):
                    return True, '%s[%d] is %r, was %r' % (nm, i, x[i], y[i + sh])
        return False, 'unchanged'
    L.TA_GetUnstablePeriod.restype = C.c_uint
    L.TA_Initialize()
    pu = [100 + j for j in range(NU)]; pc = 1; cs = [((j + 1) % 3, 20 + j, 0.5 + j) for j in range(11)]

    def dirty_():
        for j in range(NU): L.TA_SetUnstablePeriod(C.c_int(j), C.c_uint(pu[j]))
        L.TA_SetCompatibility(C.c_int(pc))
        for j in range(11): L.TA_SetCandleSettings(C.c_int(j), C.c_int(cs[j][0]), C.c_int(cs[j][1]), C.c_double(cs[j][2]))

    def now():
        o = []
        for j in range(11):
            a, b, c = C.c_int(), C.c_int(), C.c_double()
            L.irsym_candle(C.c_int(j), C.byref(a), C.byref(b), C.byref(c))
            o.append((a.value, b.value, c.value))
        return [L.TA_GetUnstablePeriod(C.c_int(j)) for j in range(NU)], L.TA_GetCompatibility(), o
    dirty_()
    i, v = s['id'], s['value']
    D = [tuple(x) for x in DEF]
    want = None
    if k == 'unstable':
        r = L.TA_SetUnstablePeriod(C.c_int(i), C.c_int(v)); ok = 0 <= i <= NU
        want = ([v & 0xffffffff if i == j or i == NU else pu[j] for j in range(NU)], pc, cs); wr = 0 if ok else ta.BAD_PARAM
    elif k == 'unstable-get':
        r = L.TA_GetUnstablePeriod(C.c_int(i)); wr = pu[i] if 0 <= i < NU else 0 if i != NU else r
        want = (pu, pc, cs)
    elif k == 'compatibility':
        pc = 1 - v
        dirty_()
        r = L.TA_SetCompatibility(C.c_int(v)); wr = 0; want = (pu, v, cs)
    elif k == 'candle':
        n = (s['range'], s['avg'], 12.5)
        r = L.TA_SetCandleSettings(C.c_int(i), C.c_int(n[0]), C.c_int(n[1]), C.c_double(n[2])); wr = 0 if 0 <= i < 11 else ta.BAD_PARAM
        want = (pu, pc, [n if i == j else cs[j] for j in range(11)])
    elif k == 'candle-restore':
        r = L.TA_RestoreCandleDefaultSettings(C.c_int(i)); wr = 0 if 0 <= i <= 11 else ta.BAD_PARAM
        want = (pu, pc, [D[j] if i == j or i == 11 else cs[j] for j in range(11)])
    else:
        r = (L.TA_Shutdown(), L.TA_Shutdown(), L.TA_Initialize()); wr = (0, ta.LIB_NOT_INIT, 0)
        want = ([0] * NU, 0, D)
        dirty_()
        L.TA_Initialize()
    if r != wr:
        return True, 'returned %r, expected %r' % (r, wr)
    if s.get('build') != 'probe':
        return False, 'no memory error'
    g = now()
    if g != want:
        return True, 'settings %r, expected %r' % (g, want)
    return False, 'as stated'
