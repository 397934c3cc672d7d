"""C05: stream life cycle: memory safety, release of everything, isolation."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: two streams alive at once, fed two different symbolic series alternately and unevenly, for up to lookback+3 bars; '
          'each released at every one of the moments 0, 1, lookback, lookback+2 bars (quick) or after every bar (thorough); the other one continues. '
          'Every load, store, copy, allocation and free of these runs is an obligation.')
OUTSIDE = 'Longer series, larger periods (C06 covers the batch side with larger periods).'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed (C16 covers failures)']


def tasks(ctx):
    return state_tasks(ctx, 60 if ctx.tier == 'quick' else 200)


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    N = lb + 3
    ins = series(h, f, c, N, sym=2)
    jns = series(h, f, c, N, tag='second_', sym=2)
    R.bounds = '%s, %d bars' % (cfg, N)
    eq = decide.Eq(names_of(f), N)
    pts = list(range(N)) if ctx.tier != 'quick' and not slow(f, c) else sorted({0, 1, lb, lb + 2}) if not slow(f, c) else [0, lb + 1]
    pl = {'ins': plain_inputs(f, c, N), 'jns': plain_inputs(f, c, N, 7), 'f': f.name, 'cfg': cfg.json(), 'n': N, 'lb': lb}
    site = task['key']
    free = 'TA_%s_StateFree' % f.name

    def fail(text, scens):
        R.queries.append((text[:60], 'BOOL', 'sat'))
        R.cands.append({'site': site, 'text': text, 'scens': scens})

    def leak(g, scen, what):
        for nm, a in g.live_heap():
            v, tr, m = decide.assert_unsat('%s: %s released' % (what, nm), a, R, 'BOOL', 4000, names_of(f), N)
            if v == 'sat':
                R.cands.append({'site': site, 'text': '%s: %s is never released' % (what, nm), 'scens':
                                [dict(scen, ins=patch(h, ins, decide.inputs(tr, m, names_of(f), N)))] if tr else [scen]})
                return True
            if v != 'unsat':
                R.status = 'undecided'; R.note = 'release of %s: %s' % (nm, v)
        if not g.live_heap():
            decide.assert_unsat('%s: everything released' % what, False, R)
        return False
    ne = len(E.errors)
    try:
        # alone
        g = h.fork(); r, hd = g.init_state(f, c); ref = [g.step(f, g.state(hd), at(g, ins, i)) for i in range(N)]
        h0 = h.fork(); r, hb = h0.init_state(f, c); ref2 = [h0.step(f, h0.state(hb), at(h0, jns, i)) for i in range(N)]
        # empty handle
        g = h.fork()
        e = g.ptrvar('empty handle', (0, 0))
        r = g.call(free, e)
        if r != 0 or g.get(e, 0, 'ptr') != (0, 0):
            return fail('releasing an empty handle returned %r' % (r,), [dict(pl, mode='empty')])
        if leak(g, dict(pl, mode='empty'), 'empty handle'):
            return
        r = g.call(free, (0, 0))
        if r != ta.BAD_PARAM:
            return fail('releasing a missing handle returned %r' % (r,), [dict(pl, mode='null')])
        # created over a used handle is refused or released with it: creation sets the handle itself
        # two streams: B advances on every second bar of A
        base = h.fork()
        r, ha = base.init_state(f, c); r2, hb = base.init_state(f, c)
        if r != 0 or r2 != 0:
            return fail('creation returned %r, %r' % (r, r2), [dict(pl, mode='iso', k=0)])
        snap = {}
        same = []; diff = []

        def cmp(who, i, got, want):
            if got[0] != want[0]:
                return '%s stream: bar %d returned %r next to another stream, %r alone' % (who, i, got[0], want[0])
            if got[0] == 0:
                for x, y, (nm, ty) in zip(got[1], want[1], f.outs):
                    if x is UNDEF and y is UNDEF: continue
                    (same if tm.same(x, y) else diff).append(('%s %s[%d]' % (who, nm, i), x, y, ty))
        j = 0
        for i in range(N):
            if i in pts:
                snap[i] = (base.fork(), j)
            t = cmp('first', i, base.step(f, base.state(ha), at(base, ins, i)), ref[i])
            if not t and (i % 2 or i == N - 1):
                t = cmp('second', j, base.step(f, base.state(hb), at(base, jns, j)), ref2[j]); j += 1
            if t:
                return fail(t, [dict(pl, mode='iso', k=i)])
        for k in pts:
            g, j = snap[k]
            r = g.call(free, ha)
            if r != 0 or g.get(ha, 0, 'ptr') != (0, 0):
                return fail('release after %d bars returned %r, handle %r' % (k, r, g.get(ha, 0, 'ptr')), [dict(pl, mode='free', k=k)])
            for jj in range(j, min(N, j + 2) if not slow(f, c) else j + 1):
                t = cmp('surviving', jj, g.step(f, g.state(hb), at(g, jns, jj)), ref2[jj])
                if t:
                    return fail(t, [dict(pl, mode='free', k=k)])
            r = g.call(free, hb)
            r2 = g.call(free, ha)           # releasing it again does nothing
            if r != 0 or r2 != 0 or g.get(hb, 0, 'ptr') != (0, 0):
                return fail('second release after %d bars returned %r, %r' % (k, r, r2), [dict(pl, mode='free', k=k)])
            if leak(g, dict(pl, mode='free', k=k, build='fault'), 'released after %d bars' % k):
                return
            R.reached += 1
    except PathAbort as e:
        msg = E.errors[-1][0] if E.errors else str(e)
        return fail('no normal return: %s' % msg, [dict(pl, mode=m, build='asan', k=k) for m, k in (('empty', 0), ('iso', N - 1))] +
                    [dict(pl, mode='free', build='asan', k=k) for k in pts])
    eq.same_batch(same, R)
    for l, x, y, t in diff:
        v, found = eq.decide(l, x, y, t, R) if x is not UNDEF and y is not UNDEF else ('sat', None)
        if v == 'sat':
            R.cands.append({'site': site, 'text': '%s differs from the same stream alone' % l,
                            'scens': [dict(pl, mode='iso', k=N - 1)] + ([dict(pl, mode='iso', k=N - 1, ins=patch(h, ins, m)) for m in eq.models(found)] if found else [])})
            break
        elif v != 'unsat':
            R.status = 'undecided'

    def ms(tr, m):
        a = patch(h, ins, decide.inputs(tr, m, names_of(f), N)) if tr else pl['ins']
        return [dict(pl, mode='free', k=k, ins=a, build='asan') for k in pts] + [dict(pl, mode='iso', k=N - 1, ins=a, build='asan')]
    errors_to(site, E, R, ms)
    finish(task, E, R)


def replay(s):
    from ..native import setup, Stream, lib
    import ctypes as C
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins, jns, N = s['ins'], s['jns'], s['n']
    mode = s['mode']
    fr = getattr(lib(), 'TA_%s_StateFree' % f.name)
    if mode == 'empty':
        p = C.c_void_p(0)
        r = fr(C.byref(p))
        return r != 0, 'releasing an empty handle returned %d' % r
    if mode == 'null':
        r = fr(None)
        return r != ta.BAD_PARAM, 'releasing a missing handle returned %d' % r

    def x(a, i):
        return [v[i] for v in a]
    ref = [r for st in [Stream(f, c)] for r in [st.step(x(ins, i)) for i in range(N)]]
    ref2 = [r for st in [Stream(f, c)] for r in [st.step(x(jns, i)) for i in range(N)]]

    def eq(a, b):
        return a[0] == b[0] and (a[0] != 0 or all(eqv(p, q) for p, q in zip(a[1], b[1])))
    live0 = lib().irsym_live() if s.get('build') == 'fault' else 0
    A = Stream(f, c); B = Stream(f, c)
    if A.ret or B.ret:
        return True, 'creation returned %d, %d' % (A.ret, B.ret)
    j = 0
    for i in range(s['k'] + (mode == 'iso')):
        g = A.step(x(ins, i))
        if not eq(g, ref[i]):
            return True, 'bar %d next to another stream: %r, alone %r' % (i, g, ref[i])
        if i % 2 or i == N - 1:
            g = B.step(x(jns, j))
            if not eq(g, ref2[j]):
                return True, 'second stream, bar %d: %r, alone %r' % (j, g, ref2[j])
            j += 1
    r = A.free()
    if r or A.p.value:
        return True, 'release returned %d, handle %r' % (r, A.p.value)
    for jj in range(j, min(N, j + 2)):
        g = B.step(x(jns, jj))
        if not eq(g, ref2[jj]):
            return True, 'surviving stream, bar %d: %r, alone %r' % (jj, g, ref2[jj])
    r = (B.free(), A.free())
    if r != (0, 0) or B.p.value:
        return True, 'release returned %r' % (r,)
    if s.get('build') == 'fault':
        n = lib().irsym_live() - live0
        return n != 0, '%d allocations of the two streams are left after their release' % n
    return False, 'life cycle as expected'
