"""C09: results do not depend on how the range is requested."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: symbolic series of lookback+4 bars (+3 for the windowed searches; thorough one more). Finite-window indicators: calls starting at every later bar (thorough) or at lookback+1, lookback+2 and the last bar, '
          'against the call over the whole series. Every indicator: a call starting at bar s against the same call on the series that begins at bar s-lookback; and the start indexes 0, 1 and lookback give the same outputs. In single precision: the call at the last bar. Equality over the reals. Not compared: the Metastock compatibility mode against a shifted series (averages start at the first bar of the array by definition), '
          'and APO/PPO of recursive averages between start 0 and start lookback (the fast average starts at the start index).')
OUTSIDE = 'Longer series and larger periods; rounding differences of running sums.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'outputs are compared over the real numbers']


def tasks(ctx):
    q = ctx.tier == 'quick'
    return state_tasks(ctx, 45 if q else 200, lambda f, c: not (q and c.name == 'p51'), nobig=('CCI', 'BETA'))


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + (3 if f.name in HEAVY or slow(f, c) else 4) + (0 if q else 1)
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, sym=2)
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, task['key'], h, ins)
    base = {'f': f.name, 'cfg': cfg.json(), 'ins': plain_inputs(f, c, N)}
    ref = {}

    fins = fseries(h, f, c, N, sym=2)

    def get(s, e, off=0, pre='TA_'):
        if (s, e, off, pre) not in ref:
            g = h.fork()
            r, t = call_batch(g, f, c, [(p[0], p[1] + (8 if pre == 'TA_' else 4) * off) for p in (ins if pre == 'TA_' else fins)], s, e, e - s + 1, prefix=pre)
            ref[s, e, off, pre] = (t, None, None) if t else (None, r[:3], vals(g, f, r[3], e - max(s, lb) + 1))
        return ref[s, e, off, pre]
    todo = []
    last = N - 1
    # starts at or before the lookback
    if finite(f, c) or f.name not in ('APO', 'PPO'):     # their fast recursive average starts at the start index
        todo += [((s, last, 0), (lb, last, 0), 0) for s in sorted({0, 1}) if s < lb]
    # the same call on the series that begins lookback bars before the start
    # (Metastock-style averages start at the first bar of the array by definition)
    for s in (() if cfg.compat else (lb + 1, lb + 13) if c.far else (lb + 1,) if slow(f, c) else (lb + 1, last)):
        k = s - lb
        if s <= last:
            todo.append(((s, last, 0), (lb, last - k, k), k))
    if finite(f, c):
        for s in (range(lb + 1, N) if not q else sorted({lb + 1, lb + 2, last} | ({lb + 13} if c.far else set()))):
            todo.append(((s, last, 0), (lb, last, 0), 0))
        if lb + 1 <= last - 1:
            todo.append(((lb + 1, last - 1, 0), (lb, last, 0), 0))
    todo = [('TA_',) + t for t in todo]
    if finite(f, c) and lb + 1 <= last and not (q and f.name in HEAVY):
        todo += [('TA_S_', (last, last, 0), (lb, last, 0), 0)] + ([('TA_S_', (lb + 1, last, 0), (lb, last, 0), 0)] if not q else [])
    elif not cfg.compat and lb + 1 <= last and not (q and slow(f, c)):
        todo.append(('TA_S_', (last, last, 0), (lb, lb, last - lb), last - lb))
    for pre, a, b, sh in todo:
        scen = dict(base, a=a, b=b, sh=sh, lb=lb, single=pre != 'TA_')
        lab = pre + f.name + ' range %d..%d against %d..%d%s' % (a[0], a[1], b[0], b[1], ' of the series from bar %d on' % b[2] if b[2] else '')
        ta_, ra, A = get(*a, pre=pre); tb, rb, B = get(*b, pre=pre)
        if ta_ or tb:
            C.fail('%s: %s' % (lab, ta_ or tb), scen); break
        skip = max(a[0], lb) - (max(b[0], lb) + b[2])
        d = code_eq(R, lab, [('return code', ra[0], rb[0]), ('begin index', ra[1], max(a[0], lb)), ('element count', ra[2], a[1] - max(a[0], lb) + 1)], names_of(f), N)
        if d:
            C.fail(d[0], scen); break
        C.add_runs(lab, A, B, scen, b0=skip, n=a[1] - max(a[0], lb) + 1, shift=sh)
    C.decide('the values differ')
    finish(task, E, R)


def replay(s):
    from ..native import setup, lib, optargs
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    (a0, a1, ao), (b0, b1, bo) = s['a'], s['b']
    lb = getattr(lib(), 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    x = nat_batch(f, c, s['ins'], a0, a1, s.get('single'), off=ao)
    y = nat_batch(f, c, s['ins'], b0, b1, s.get('single'), off=bo)
    n = a1 - max(a0, lb) + 1
    if x[0] != 0 or y[0] != 0 or x[1] != max(a0, lb) or x[2] != n:
        return True, 'codes and ranges %r, %r' % (x[:3], y[:3])
    skip = max(a0, lb) - (max(b0, lb) + bo)
    for (nm, ty), p, q in zip(f.outs, x[3], y[3]):
        for k in range(n):
            v = q[skip + k] + (s['sh'] if f_index(f, nm) else 0)
            if not native.close(p[k], v):
                return True, '%s of bar %d: %r in the call %d..%d, %r in the call %d..%d%s' % (nm, max(a0, lb) + k, p[k], a0, a1, v, b0, b1, ' of the series from bar %d on' % bo if bo else '')
    return False, 'ranges agree'
