"""C07: every batch call reports exactly the output range it produced."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: symbolic series of lookback+3 bars in double and in single precision; every start/end pair with start in {0, 1, lookback-1, lookback, lookback+1, last} and '
          'end in {start, lookback-1, lookback, lookback+1, last} (quick) or all pairs (thorough). The published lookback is the one the library computes from the same options and settings.')
OUTSIDE = 'Longer series and larger periods; indexes near the upper end of int.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']


def tasks(ctx):
    return state_tasks(ctx, 60 if ctx.tier == 'quick' else 200)


def pairs(N, lb, tier, slow=False):
    if slow:
        return [p for p in ([(0, N - 1), (lb, lb), (0, lb), (0, lb - 1)] if tier == 'quick' else [(0, N - 1), (lb, lb), (0, lb), (0, lb - 1), (lb + 1, N - 1), (1, lb + 1), (N - 1, N - 1)]) if p[0] <= p[1]]
    if tier != 'quick':
        return [(s, e) for s in range(N) for e in range(s, N)]
    S = sorted({x for x in (0, 1, lb - 1, lb, lb + 1, N - 1) if 0 <= x < N})
    out = set()
    for s in S:
        for e in (s, lb - 1, lb, lb + 1, N - 1):
            if s <= e < N:
                out.add((s, e))
    return sorted(out)


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    if type(lb) is not int or lb < 0:
        R.cands.append({'site': task['key'] + ':lookback', 'text': 'lookback is %r' % (lb,), 'scens': [{'f': f.name, 'cfg': cfg.json(), 's': 0, 'e': 0, 'ins': plain_inputs(f, c, 1)}]})
        return
    N = lb + 3
    ins = series(h, f, c, N, sym=2)
    R.bounds = '%s, %d bars, lookback %d' % (cfg, N, lb)
    fins = fseries(h, f, c, N, sym=2)
    todo = [('TA_', s, e) for s, e in pairs(N, lb, ctx.tier, slow(f, c))]
    todo += [('TA_S_', s, e) for _, s, e in (todo if not slow(f, c) else todo[2:] if ctx.tier == 'quick' else todo)]
    for pre, s, e in todo:
        g = h.fork()
        b = max(s, lb)
        want = (b, e - b + 1) if b <= e else (0, 0)
        cap = e - s + 1
        scen = {'f': f.name, 'cfg': cfg.json(), 's': s, 'e': e, 'single': pre != 'TA_', 'ins': plain_inputs(f, c, N)}
        lab = '%s %d..%d' % (pre + f.name, s, e)
        bad = None; tr = m = None
        ne = len(E.errors)
        try:
            r, ob, on, outs = g.batch(f, c, ins if pre == 'TA_' else fins, s, e, cap, prefix=pre)
        except PathAbort as x:
            bad = 'no normal return (%s)' % (E.errors[-1][0] if E.errors else x)
        else:
            # the codes and counts may depend on the inputs: as decision diagrams
            got = [('return code', r, 0), ('begin index', ob, want[0]), ('element count', on, want[1])]
            for what, x, w in got:
                cond = tm.map1(lambda v: v is UNDEF or v != w, x)
                v, tr, m = decide.assert_unsat('%s: %s' % (lab, what), cond, R, 'BOOL', 4000, names_of(f), N)
                if v == 'sat':
                    bad = '%s is %r, expected %r' % (what, tm.show(x, 3) if not isinstance(x, int) else x, w); break
                if v != 'unsat':
                    R.status = 'undecided'; R.note = '%s %s: %s' % (lab, what, v)
            if not bad:
                miss = False; extra = False; wh = None
                for o, (nm, ty) in zip(outs, f.outs):
                    for k in range(cap):
                        x = g.get(o, k, ty)
                        if k < want[1]:
                            u = tm.map1(lambda v: v is UNDEF, x)
                            if u is not False and wh is None: wh = '%s[%d] is not written' % (nm, k)
                            miss = bor(miss, u)
                        else:
                            u = tm.map1(lambda v: v is not UNDEF, x)
                            if u is not False and wh is None: wh = '%s[%d] is written beyond the reported %d elements' % (nm, k, want[1])
                            extra = bor(extra, u)
                for what, cond in (('every reported element written', miss), ('no other element written', extra)):
                    v, tr, m = decide.assert_unsat('%s: %s' % (lab, what), cond, R, 'BOOL', 4000, names_of(f), N)
                    if v == 'sat':
                        bad = wh; break
                    if v != 'unsat':
                        R.status = 'undecided'; R.note = '%s %s: %s' % (lab, what, v)
        R.reached += 1
        if bad:
            R.queries.append((lab, 'BOOL', 'sat'))
            sc = [scen, dict(scen, build='asan')]
            if tr is not None and m is not None:
                a = patch(h, ins, decide.inputs(tr, m, names_of(f), N))
                sc = [dict(scen, ins=a), scen]
            R.cands.append({'site': task['key'], 'text': 'range %s: %s' % (lab, bad), 'scens': sc})
            break
    finish(task, E, R)


def replay(s):
    from ..native import setup, lib
    from ..native import CT, optargs
    import ctypes as C
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    L = lib()
    lb = getattr(L, 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    if lb < 0:
        return True, 'lookback %d' % lb
    b0, e0 = s['s'], s['e']
    b = max(b0, lb)
    want = (b, e0 - b + 1) if b <= e0 else (0, 0)
    arrs = [((C.c_float if s.get('single') else C.c_double) * max(1, e0 + 1))(*x[:e0 + 1]) for x in s['ins']]
    cap = e0 - b0 + 1
    res = []
    for fill in (0x5A5A5A5A, 0x35353535):          # two fill patterns: a cell equal to both was not written
        raw = [(C.c_uint32 * ((cap + 2) * (2 if t == 'double' else 1)))(*([fill] * ((cap + 2) * (2 if t == 'double' else 1)))) for _, t in f.outs]
        ob, on = C.c_int(-99), C.c_int(-98)
        r = getattr(L, ('TA_S_' if s.get('single') else 'TA_') + f.name)(C.c_int(b0), C.c_int(e0), *arrs, *optargs(f, c), C.byref(ob), C.byref(on), *raw)
        if r != 0 or (ob.value, on.value) != want:
            return True, 'range %d..%d returned %d begin %d count %d, expected begin %d count %d' % (b0, e0, r, ob.value, on.value, want[0], want[1])
        res.append([[tuple(x[k * w:(k + 1) * w]) == (fill,) * w for k in range(cap + 2)] for x, (_, t) in zip(raw, f.outs) for w in [2 if t == 'double' else 1]])
    for (nm, t), A, B in zip(f.outs, res[0], res[1]):
        for k in range(cap + 2):
            un = A[k] and B[k]
            if k < want[1] and un:
                return True, '%s[%d] of range %d..%d is not written' % (nm, k, b0, e0)
            if k >= want[1] and not un:
                return True, '%s[%d] of range %d..%d is written beyond the reported %d elements' % (nm, k, b0, e0, want[1])
    return False, 'range as reported'
