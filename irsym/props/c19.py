"""C19: later bars never change earlier results."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: symbolic series of lookback+4 bars (quick; +3 for the windowed searches, +5 thorough); the call that ends at the last bar against calls that end at every earlier bar from the lookback on, '
          'starting at bar 0 and at the bar after the lookback; in single precision from bar 0.')
OUTSIDE = 'Longer series and larger periods.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']


def tasks(ctx):
    return state_tasks(ctx, 45 if ctx.tier == 'quick' else 200)


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + (3 if f.name in HEAVY or slow(f, c) else 4) + (0 if q else 1)
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, sym=2)
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, task['key'], h, ins)
    fins = fseries(h, f, c, N, sym=2)
    runs = [('TA_', s) for s in ([0] if slow(f, c) else [0, lb + 1])]
    if not (slow(f, c) and q): runs += [('TA_S_', s) for s in ([0] if q else [0, lb + 1])]
    for pre, s in runs:
        xs = ins if pre == 'TA_' else fins
        ends = [e for e in range(max(s, lb), N - 1)]
        if slow(f, c):
            ends = ends[-1:]
        scen = {'f': f.name, 'cfg': cfg.json(), 's': s, 'N': N, 'single': pre != 'TA_', 'ins': plain_inputs(f, c, N)}
        g = h.fork()
        full, t = call_batch(g, f, c, xs, s, N - 1, N - s, prefix=pre)
        if t:
            C.fail('%s range %d..%d: %s' % (pre + f.name, s, N - 1, t), dict(scen, e=N - 1)); break
        A = vals(g, f, full[3], N - max(s, lb))
        for e in ends:
            g2 = h.fork()
            part, t = call_batch(g2, f, c, xs, s, e, e - s + 1, prefix=pre)
            sc = dict(scen, e=e)
            if t:
                C.fail('range %d..%d: %s' % (s, e, t), sc); break
            d = code_eq(R, '%s range %d..%d' % (pre + f.name, s, e), [('return code', part[0], full[0]), ('begin index', part[1], full[1]), ('element count', part[2], e - max(s, lb) + 1)], names_of(f), N)
            if d:
                C.fail(d[0], sc); break
            n = e - max(s, lb) + 1
            C.add_runs('%s range %d..%d' % (pre + f.name, s, e), vals(g2, f, part[3], n), A, sc, n=n)
    C.decide('the value of the call that ends here differs from the one of the call that ends later')
    finish(task, E, R)


def replay(s):
    from ..native import setup
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    a = nat_batch(f, c, s['ins'], s['s'], s['N'] - 1, s.get('single'))
    b = nat_batch(f, c, s['ins'], s['s'], s['e'], s.get('single'))
    n = s['e'] - s['N'] + 1
    if b[:3] != (a[0], a[1], a[2] + n):
        return True, 'call ending at %d returned %r, at %d returned %r' % (s['e'], b[:3], s['N'] - 1, a[:3])
    for (nm, _), x, y in zip(f.outs, b[3], a[3]):
        for k in range(b[2]):
            if not native.close(x[k], y[k]):
                return True, '%s[%d]: %r when the call ends at bar %d, %r when it ends at bar %d' % (nm, k, x[k], s['e'], y[k], s['N'] - 1)
    return False, 'results do not depend on later bars'
