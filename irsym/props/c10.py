"""C10: an output array may be the same array as an input."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration, every (real output, real input) pair sharing one array: symbolic series of lookback+3 bars, ranges from 0, 1 and lookback+1 to the end (thorough: also every start and pairs of outputs sharing two different inputs), against the call with separate arrays.')
OUTSIDE = 'Longer series and larger periods; partially overlapping arrays (not allowed by the documentation); two outputs in one array.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'outputs are compared over the real numbers']


def tasks(ctx):
    q = ctx.tier == 'quick'
    return [t for t in state_tasks(ctx, 45 if q else 200, (lambda f, c: not (f.name in SLOW2 and c.name != 'plain')) if q else None) if any(ty == 'double' for _, ty in ctx.api[t['f']].outs)]


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + 3
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, sym=2)
    for p in ins:
        h.S.mem[p[0]].kind = 'out'        # writable
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, task['key'], h, ins)
    al = [{o: i} for o, (_, ty) in enumerate(f.outs) if ty == 'double' for i in range(len(f.ins))]
    do = [o for o, (_, ty) in enumerate(f.outs) if ty == 'double']
    if len(do) > 1 and len(f.ins) > 1:
        al.append({do[0]: 0, do[1]: 1})
        if not q: al.append({do[0]: 1, do[1]: 0})
    sts = [0, lb + 1] if slow(f, c) else sorted({0, 1, lb + 1}) if q else range(N)
    if slow(f, c) and q: sts = [0]
    for s in sts:
        e = N - 1
        n = e - max(s, lb) + 1
        scen = {'f': f.name, 'cfg': cfg.json(), 's': s, 'e': e, 'ins': plain_inputs(f, c, N)}
        g = h.fork()
        r, t = call_batch(g, f, c, ins, s, e, e - s + 1)
        if t:
            C.fail('range %d..%d: %s' % (s, e, t), dict(scen, alias=[])); break
        A = vals(g, f, r[3], n)
        for m in al:
            g2 = h.fork()
            outs = [ins[m[o]] if o in m else g2.buf(e - s + 1, ty, nm) for o, (nm, ty) in enumerate(f.outs)]
            lab = 'range %d..%d, %s' % (s, e, ' and '.join('%s in %s' % (f.outs[o][0], f.ins[i][0]) for o, i in m.items()))
            sc = dict(scen, alias=[[o, i] for o, i in m.items()])
            r2, t = call_batch(g2, f, c, ins, s, e, e - s + 1, outs=outs)
            if t:
                C.fail('%s: %s' % (lab, t), sc); break
            d = code_eq(R, lab, [('return code', r2[0], r[0]), ('begin index', r2[1], r[1]), ('element count', r2[2], r[2])], names_of(f), N)
            if d:
                C.fail(d[0], sc); break
            C.add_runs(lab, vals(g2, f, outs, n), A, sc, n=n)
    C.decide('differs from the call with separate arrays')
    finish(task, E, R)


def replay(s):
    from ..native import setup
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    x = nat_batch(f, c, s['ins'], s['s'], s['e'])
    y = nat_batch(f, c, s['ins'], s['s'], s['e'], alias={o: i for o, i in s['alias']})
    if x[:3] != y[:3]:
        return True, 'separate arrays %r, shared array %r' % (x[:3], y[:3])
    for (nm, ty), p, q in zip(f.outs, x[3], y[3]):
        for k in range(x[2]):
            if not native.close(p[k], q[k]):
                return True, '%s[%d]: %r with separate arrays, %r with a shared array' % (nm, k, p[k], q[k])
    return False, 'aliasing does not matter'
