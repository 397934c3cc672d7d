"""C11: single-precision input gives the double-precision results."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: symbolic single-precision series of lookback+3 bars; ranges 0..last, lookback+1..last, 1..lookback and one that produces nothing (thorough: all pairs), against the double-precision entry point on the same numbers.')
OUTSIDE = 'Longer series and larger periods. A rounding to single precision inside the single-precision entry point is seen as an uninterpreted operation in the encoding, so a difference that exists only through it is a candidate and is decided by replay.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']


def tasks(ctx):
    q = ctx.tier == 'quick'
    return state_tasks(ctx, 45 if q else 200, (lambda f, c: not (f.name in SLOW2 and c.name != 'plain')) if q else None, nobig=('CCI',))


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + 3
    if c.far:
        N = lb + FAR
    pl = plain_inputs(f, c, N)
    sym = 2 if f.name in SLOW2 or c.far else None
    fl = []; db = []
    for k, (nm, _) in enumerate(f.ins):
        pv = period_vals(f, c, N) if nm == 'inPeriods' else None
        v = [tm.fc(pv[i].val, 'f32') if pv else tm.fc(pl[k][i], 'f32') if sym and i < N - sym else tm.var('%s_%d' % (nm, i), 'f32') for i in range(N)]
        fl.append(h.arr(nm, N, sort='f32', vals=v))
        db.append(h.arr(nm, N, vals=[tm.fpext(x) for x in v]))
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, task['key'], h, db)
    if c.far:
        C.eq.slack = 1e-4       # intermediate results in single precision
    last = N - 1
    rg = [(0, last), (lb + 1, last)] + ([(1, lb), (0, lb - 1)] if not slow(f, c) else [])
    if slow(f, c) and q: rg = rg[:1]
    if not q and not slow(f, c):
        rg = [(s, e) for s in range(N) for e in range(s, N)]
    for s, e in rg:
        if not 0 <= s <= e:
            continue
        n = max(0, e - max(s, lb) + 1)
        scen = {'f': f.name, 'cfg': cfg.json(), 's': s, 'e': e, 'ins': pl, 'tol': 1e-4 if c.far else 1e-9}
        g = h.fork(); g2 = h.fork()
        lab = 'range %d..%d' % (s, e)
        r, t = call_batch(g, f, c, db, s, e, e - s + 1)
        r2, t2 = call_batch(g2, f, c, fl, s, e, e - s + 1, prefix='TA_S_')
        if t or t2:
            C.fail('%s: %s' % (lab, t or t2), scen); break
        d = code_eq(R, lab, [('return code', r2[0], r[0]), ('begin index', r2[1], r[1]), ('element count', r2[2], r[2])], names_of(f), N)
        if d:
            C.fail(d[0], scen)
            if d[1] is not None: R.cands[-1]['scens'].insert(0, dict(scen, ins=patch(h, db, decide.inputs(d[1], d[2], names_of(f), N))))
            break
        C.add_runs(lab, vals(g2, f, r2[3], n), vals(g, f, r[3], n), scen, n=n)
    C.decide('single and double precision differ')
    finish(task, E, R)


def replay(s):
    from ..native import setup
    import struct
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins = [[struct.unpack('f', struct.pack('f', v))[0] for v in x] for x in s['ins']]
    x = nat_batch(f, c, ins, s['s'], s['e'])
    y = nat_batch(f, c, ins, s['s'], s['e'], single=True)
    if x[:3] != y[:3]:
        return True, 'double precision %r, single precision %r' % (x[:3], y[:3])
    for (nm, ty), p, q in zip(f.outs, x[3], y[3]):
        for k in range(x[2]):
            if not native.close(p[k], q[k], s.get('tol', 1e-9)):
                return True, '%s[%d]: %r in double precision, %r in single precision' % (nm, k, p[k], q[k])
    return False, 'precisions agree'
