"""C04: I/O failures during save or load are reported and harmless."""
from .common import *
from .c16 import Faulty, any_fail, failing, released

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: a stream fed k symbolic bars, k in {0, lookback+1} (quick) / {0, 1, lookback, lookback+1} (thorough), and an empty handle; '
          'every fwrite of its save and every fread of its load fails or comes up one item short under its own free variable, so every combination of failures is covered; '
          'the original stream is continued for one symbolic bar after the failed save.')
OUTSIDE = 'Files with damaged contents (the format has no check values); failures that transfer part of an item.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']


def tasks(ctx):
    return state_tasks(ctx, 60 if ctx.tier == 'quick' else 200, None if ctx.tier != 'quick' else (lambda f, c: not (f.name in HEAVY and c.name not in ('p2', 'p2,2,3', 'p1,2,3', 'p2,2,2', 'def'))
                       and not (f.name.startswith('CDL') and c.name not in ('cdl-small', 'sym'))), nosym=('SAREXT',))


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    N = lb + 2
    ins = series(h, f, c, N, sym=2)
    pts = [0, lb + 1] if ctx.tier == 'quick' or slow(f, c) else sorted({0, 1, lb, lb + 1})
    R.bounds = '%s, saved after %s bars, all failure combinations' % (cfg, pts)
    pl = {'ins': plain_inputs(f, c, N), 'f': f.name, 'cfg': cfg.json(), 'n': N, 'build': 'fault'}
    key = task['key']
    fn = 'TA_%s_State' % f.name
    eq = decide.Eq(names_of(f), N)
    h0 = h.fork()
    r, hd = h0.init_state(f, c)
    snap = {}
    for i in range(N):
        if i in pts:
            snap[i] = h0.fork()
        rr = h0.step(f, h0.state(hd), at(h0, ins, i))
        if i in pts:
            snap[i] = (snap[i], rr)

    def fresh(on=True):
        E.io_atoms = []; E.io_fault = on
        return len(E.errors)

    def norm_ret(fy, what, fun):
        """one faulty call; None when it did not return"""
        ne = fresh()
        try:
            r = fun()
            E.io_fault = False
            fy.returns(r, what)
            fy.errors(ne)
            return ne
        except PathAbort as e:
            E.io_fault = False
            fy.errors(ne)
            if not fy.bad:
                fy.check('no normal return: %s' % e, True)
            return None
        finally:
            E.io_fault = False
    # empty handle
    g = h.fork()
    fl = E.new_file(g.S)
    fy = Faulty(key + ':save', E, R, dict(pl, mode='nullsave', k=0), ta.IO_FAILED)
    norm_ret(fy, 'save of an empty handle', lambda: g.call(fn + 'Save', (0, 0), fl))
    g = h.fork(); fl = E.new_file(g.S)
    if not fy.bad and g.call(fn + 'Save', (0, 0), fl) == 0:
        E.file_rewind(g.S, fl)
        la = g.ptrvar('loaded', (0, 0))
        fy = Faulty(key + ':load', E, R, dict(pl, mode='nullload', k=0), ta.IO_FAILED)
        if norm_ret(fy, 'load of an empty handle', lambda: g.call(fn + 'Load', la, fl)) is not None:
            fy.check('load of an empty handle leaves a handle', bnot(tm.map1(lambda x: x == (0, 0), g.get(la, 0, 'ptr'))))
    for k in pts:
        base, want = snap[k]
        keep = {o for o, _ in base.live_heap()}
        # save
        g = base.fork(); fl = E.new_file(g.S)
        fy = Faulty(key + ':save', E, R, dict(pl, mode='save', k=k), ta.IO_FAILED)
        ne = norm_ret(fy, 'save after %d bars' % k, lambda: g.call(fn + 'Save', g.state(hd), fl))
        if fy.bad:
            break
        released(fy, g, keep, 'save')
        try:
            rr = g.step(f, g.state(hd), at(g, ins, k))
            if not tm.same(rr[0], want[0]):
                fy.check('the original returns another code after a failed save', bnot(tm.map2(lambda a, b: a == b, rr[0], want[0])))
            if want[0] == 0:
                for x, y, (nm, ty) in zip(rr[1], want[1], f.outs):
                    if x is UNDEF and y is UNDEF: continue
                    if tm.same(x, y):
                        eq.same_batch([('original %s' % nm, x, y, ty)], R)
                    else:
                        v, found = eq.decide('original %s' % nm, x, y, ty, R)
                        if v == 'sat':
                            fy.check('the original continues differently after a failed save', True)
                        elif v != 'unsat':
                            R.status = 'undecided'
            r2 = g.call(fn + 'Free', hd)
            fy.errors(ne)
            released(fy, g, (), 'save and release')
        except PathAbort as e:
            fy.errors(ne)
            if not fy.bad:
                fy.check('after a failed save: %s' % e, True)
        # load
        g = base.fork(); fl = E.new_file(g.S)
        if g.call(fn + 'Save', g.state(hd), fl) != 0:
            continue
        E.file_rewind(g.S, fl)
        la = g.ptrvar('loaded', (0, 0))
        keep = {o for o, _ in g.live_heap()}
        fy = Faulty(key + ':load', E, R, dict(pl, mode='load', k=k), ta.IO_FAILED)
        ne = norm_ret(fy, 'load after %d bars' % k, lambda: g.call(fn + 'Load', la, fl))
        if fy.bad:
            break
        try:
            r2 = g.call(fn + 'Free', la)
            fy.errors(ne)
            fy.check('release after a failed load does not succeed', bnot(tm.map1(lambda x: x == 0, r2)))
            released(fy, g, keep, 'load and release')
        except PathAbort as e:
            fy.errors(ne)
            if not fy.bad:
                fy.check('release after a failed load: %s' % e, True)
        R.reached += 1
        if fy.bad:
            break
    finish(task, E, R)


def replay(s):
    from ..native import setup, Stream, File, lib
    import ctypes as C
    L = lib()
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins, k, mode, fail = s['ins'], s['k'], s['mode'], s['fail']

    def arm():
        L.irsym_reset()
        for x in fail:
            L.irsym_io_fail(x)
        L.irsym_arm(1)

    def judge(r, what):
        L.irsym_arm(0)
        hit = any(x < L.irsym_nio() for x in fail)
        if hit and r != ta.IO_FAILED:
            return '%s: transfer %s fails, returned %d' % (what, fail, r)
        if not hit and r != 0:
            return '%s returned %d without a failure' % (what, r)

    def x(i):
        return [v[i] for v in ins]
    S = getattr(L, 'TA_%s_StateSave' % f.name); Ld = getattr(L, 'TA_%s_StateLoad' % f.name)
    if mode.startswith('null'):
        fl = File()
        if mode == 'nullsave':
            arm()
            t = judge(S(None, fl.p), 'save of an empty handle')
            return bool(t), t or 'ok'
        if S(None, fl.p):
            return False, 'save failed'
        fl.rewind()
        p = C.c_void_p(0)
        arm()
        t = judge(Ld(C.byref(p), fl.p), 'load of an empty handle')
        return bool(t or p.value), t or 'handle %r' % p.value
    live0 = L.irsym_live()
    A = Stream(f, c)
    B = Stream(f, c)
    for i in range(k):
        A.step(x(i)); B.step(x(i))
    fl = File()
    if mode == 'save':
        live = L.irsym_live()
        arm()
        t = judge(A.save(fl), 'save')
        if t: return True, t
        if L.irsym_live() != live: return True, 'save changes the number of blocks'
        a, b = A.step(x(k)), B.step(x(k))
        if a[0] != b[0] or a[0] == 0 and not all(eqv(p, q) for p, q in zip(a[1], b[1])):
            return True, 'after a failed save the stream continues with %r instead of %r' % (a, b)
        A.free(); B.free()
    else:
        if A.save(fl): return False, 'save failed'
        fl.rewind()
        live = L.irsym_live()
        arm()
        D = Stream(f, c, load=fl)
        t = judge(D.ret, 'load')
        if t: return True, t
        r = D.free()
        if r: return True, 'release after a load that returned %d: %d' % (D.ret, r)
        n = L.irsym_live() - live
        if n: return True, '%d blocks lost by a load that returned %d' % (n, D.ret)
        A.free(); B.free()
    n = L.irsym_live() - live0
    return n != 0, '%d blocks left' % n
