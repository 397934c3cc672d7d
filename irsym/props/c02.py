"""C02: the block form of a stream equals bar-by-bar streaming for any chunking."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: symbolic series of length lookback+3 (quick) / +4; the cuts: one block, a block per bar, '
          'every single cut position (thorough) or the cuts 1, lookback, lookback+1 (quick), and a mix of per-bar calls and blocks.')
OUTSIDE = 'Longer series, larger periods; integer outputs at positions that still need data (the code converts NaN to int there); NaN inputs.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']
K = {'quick': 3, 'thorough': 4}


def tasks(ctx):
    return state_tasks(ctx, 45 if ctx.tier == 'quick' else 150, None if ctx.tier != 'quick' else (lambda f, c: not (f.name in HEAVY and c.name not in ('p2', 'p2,2,3', 'p1,2,3', 'p2,2,2', 'def'))))


def cuts(N, lb, tier, heavy):
    if heavy and tier == 'quick':
        return [[('b', 0, lb + 2), ('s', lb + 2, N)], [('s', 0, 1), ('b', 1, N)]]
    out = [[('b', 0, N)], [('b', i, i + 1) for i in range(N)], [('s', 0, min(2, N)), ('b', min(2, N), N - 1), ('s', N - 1, N)]]
    for c in (range(1, N) if tier != 'quick' else sorted({1, lb, lb + 1})):
        if 0 < c < N:
            out.append([('b', 0, c), ('b', c, N)])
    return out


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    N = lb + K[ctx.tier]
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N)
    R.bounds = '%s, %d bars' % (cfg, N)
    h1 = h.fork()
    r, hd = h1.init_state(f, c)
    if r != 0:
        R.cands.append({'site': task['key'] + ':init', 'text': 'init returned %r' % r, 'scens': [{'f': f.name, 'cfg': cfg.json(), 'n': N, 'plan': [('b', 0, N)], 'ins': plain_inputs(f, c, N)}]})
        return
    st = h1.state(hd)
    ref = []
    for i in range(N):
        ref.append(h1.step(f, st, at(h1, ins, i)))
    if any(type(r) is not int for r, _ in ref):
        raise PathAbort('symbolic return code %r' % [r for r, _ in ref])
    eq = decide.Eq(names_of(f), N)
    for plan in cuts(N, lb, ctx.tier, slow(f, c)):
        scen = {'f': f.name, 'cfg': cfg.json(), 'n': N, 'plan': plan, 'ins': plain_inputs(f, c, N)}
        h2 = h.fork()
        r, hd = h2.init_state(f, c)
        st = h2.state(hd)
        bad = None; same = []; diff = []
        for kind, a, b in plan:
            if a >= b:
                continue
            if kind == 's':
                for i in range(a, b):
                    rr, v = h2.step(f, st, at(h2, ins, i))
                    if rr != ref[i][0]:
                        bad = 'bar %d after blocks returned %r, expected %r' % (i, rr, ref[i][0]); break
                    if rr == 0:
                        cmp(same, diff, i, f, v, ref[i][1])
                continue
            ob = h2.buf(1, 'int', 'outBegIdx'); on = h2.buf(1, 'int', 'outNBElement')
            outs = [h2.buf(b - a, ty, nm) for nm, ty in f.outs]
            ne = len(E.errors)
            try:
                rr = h2.call('TA_%s_BatchState' % f.name, st, a, b - 1, *ins, ob, on, *outs)
            except PathAbort as e:
                bad = 'block %d..%d: no normal return (%s)' % (a, b - 1, E.errors[-1][0] if E.errors else e); break
            if len(E.errors) > ne:
                bad = 'block %d..%d: %s' % (a, b - 1, E.errors[ne][0]); break
            beg, nb = h2.get(ob, 0, 'int'), h2.get(on, 0, 'int')
            if rr != ref[b - 1][0] or beg != a or nb != b - a:
                bad = 'block %d..%d returned %r begin %r count %r; per-bar code of its last bar is %r' % (a, b - 1, rr, beg, nb, ref[b - 1][0]); break
            for i in range(a, b):
                v = [h2.get(o, i - a, ty) for o, (nm, ty) in zip(outs, f.outs)]
                if ref[i][0] == 0:
                    cmp(same, diff, i, f, v, ref[i][1])
                else:
                    for x, (nm, ty) in zip(v, f.outs):
                        if ty == 'double' and not isnan(x):
                            bad = '%s of bar %d, which needs more data, is %s, not NaN' % (nm, i, tm.show(x, 2) if x is not UNDEF else 'not written')
            if bad:
                break
        lab = 'plan %s' % ' '.join('%s%d-%d' % p for p in plan[:4])
        if bad:
            R.queries.append((lab, 'BOOL', 'sat'))
            R.cands.append({'site': task['key'], 'text': bad, 'scens': [scen, dict(scen, build='asan')]})
            break
        eq.same_batch([(lab + ' ' + l, x, y, t) for l, x, y, t in same], R)
        R.reached += len(same) + len(diff)
        for l, x, y, t in diff:
            v, found = eq.decide(lab + ' ' + l, x, y, t, R)
            if v == 'sat':
                R.cands.append({'site': task['key'], 'text': '%s differs between block and per-bar streaming (%s)' % (l, lab),
                                'scens': [scen] + [dict(scen, ins=patch(h, ins, m)) for m in eq.models(found)]})
                break
            elif v != 'unsat':
                R.status = 'undecided'
        if R.cands:
            break
    finish(task, E, R)


def isnan(x):
    v = getattr(x, 'val', None)
    return v is not None and v != v


def cmp(same, diff, i, f, a, b):
    for x, y, (nm, ty) in zip(a, b, f.outs):
        if x is UNDEF and y is UNDEF:
            continue
        (same if tm.same(x, y) else diff).append(('%s[%d]' % (nm, i), x, y, ty))


def replay(s):
    from ..native import setup, Stream
    import math
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins = s['ins']; N = s['n']
    st = Stream(f, c)
    ref = [st.step([x[i] for x in ins]) for i in range(N)]
    st2 = Stream(f, c)
    if st.ret or st2.ret:
        return True, 'init returned %d' % st.ret
    for kind, a, b in s['plan']:
        if a >= b:
            continue
        if kind == 's':
            for i in range(a, b):
                rr, v = st2.step([x[i] for x in ins])
                if rr != ref[i][0] or rr == 0 and not all(eqv(p, q) for p, q in zip(v, ref[i][1])):
                    return True, 'bar %d after blocks: %d %r, per-bar stream: %r' % (i, rr, v, ref[i])
            continue
        rr, beg, nb, outs = st2.batch(ins, a, b - 1)
        if rr != ref[b - 1][0] or beg != a or nb != b - a:
            return True, 'block %d..%d returned %d begin %d count %d, expected %d %d %d' % (a, b - 1, rr, beg, nb, ref[b - 1][0], a, b - a)
        for i in range(a, b):
            for j, (nm, ty) in enumerate(f.outs):
                x = outs[j][i - a]
                if ref[i][0] == 0 and not eqv(x, ref[i][1][j]) or ref[i][0] != 0 and ty == 'double' and not math.isnan(x):
                    return True, '%s of bar %d in block %d..%d: %r, per-bar stream: %r' % (nm, i, a, b - 1, x, ref[i])
    return False, 'blocks agree with the per-bar stream'
