"""C21: a stream behaves the same however long it has been running."""
from math import lcm
import z3
from .common import *
from .. import smt
from ..llir import Unsupported

QUICK_BUDGET = 450
SETTLE = 4
REAL = 1 << 25
TOP = (1 << 31) - (1 << 17)
BOUNDS = ('Per function and listed option configuration: a stream that has seen its warm-up and a further 60..75 bars (fixed numbers; more than one turn of every ring), and the same stream with its bar counters (every integer '
          'of the state that grows by one per bar, found by running) advanced by a symbolic K; then 4 settling bars and 3 (quick; 1-2 for the slow functions) / 5 bars of symbolic data (fixed numbers, symbolic K only, for HT_DCPHASE, HT_SINE, HT_TRENDLINE, HT_TRENDMODE and the MAMA averages). K: every multiple of lcm(1..16, the ring sizes the code reduces the counter by) '
          ' from 0 to 2^31 - 2^17, and from 2^31 to 2^62.')
OUTSIDE = 'Histories whose length differs by a number that is no multiple of the ring sizes (C01 covers the positions of the first turns); drift of rounding errors; platforms with a 32-bit size_t.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'the counters of a state advance together']


def tasks(ctx):
    return state_tasks(ctx, 40 if ctx.tier == 'quick' else 200, nosym=('SAR', 'SAREXT'), nobig=True)


def int_cells(h, st):
    """every initialised integer cell reachable from the state: {path of offsets: (object, offset, size, value)}"""
    out = {}
    seen = set()

    def go(i, path):
        if i in seen or i == 0:
            return
        seen.add(i)
        o = h.E.robj(h.S, i)
        if o is None:
            return
        for off, (sz, v) in sorted(o.cells.items()):
            if type(v) is tuple:
                if v[0] != 0 and v[1] == 0:
                    go(v[0], path + (off,))
            elif type(v) is int and sz in (1, 2, 4, 8):
                out[path + (off,)] = (i, off, sz, v)
    go(st[0], ())
    return out


def tick(a, b, n):
    return {p for p, x in a.items() if p in b and b[p][3] == x[3] + n}


def feed(h, f, st, cols, i0, n):
    for i in range(i0, i0 + n):
        h.step(f, st, [tm.fc(x[i]) for x in cols])


def settle_of(c, lb):
    """bars after which a bar number remembered before the counters were advanced has been replaced"""
    return min(lb, 120) + 2 if c.far else SETTLE


def long_run(h, f, c, R):
    """(context, state, paths of the bar counters, fixed series, bars fed) of a stream that has run for a while"""
    lb = h.lookback(f, c)
    r, hd = h.init_state(f, c)
    if r != 0:
        R.status = 'undecided'; R.note = 'no stream: %r' % r
        return None, None, None, None, None
    st = h.state(hd)
    LONG = 2 * lb + 260
    cols = plain_inputs(f, c, LONG)
    feed(h, f, st, cols, 0, lb + 2)
    n = lb + 2
    # the bars compared surround a multiple of 16
    n0 = n + 60      # longer than every ring of fixed size (50)
    n0 += (-(n0 + settle_of(c, lb) + 1)) % 16
    cand = None
    for seed in (0, 1):
        g = h.fork()
        cc = plain_inputs(f, c, LONG, seed)
        prev = int_cells(g, st)
        for i in range(n, n0):
            g.step(f, st, [tm.fc(x[i]) for x in cc])
            cur = int_cells(g, st)
            t = tick(prev, cur, 1)
            cand = t if cand is None else cand & t
            prev = cur
        if seed == 0:
            base = g
    if not cand:
        R.status = 'ok'; R.reached = 1
        decide.assert_unsat('the state holds no bar counter', False, R)
        return None, None, None, None, None
    return base, st, cand, cols, n0


def run(task, ctx, R):
    import time
    t0 = time.time()
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    q = ctx.tier == 'quick'
    tm.set_nonan(True)
    tm.set_base(None, None, None)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    scen0 = {'f': f.name, 'cfg': cfg.json()}
    w = (3 if warm(f, c) else 1 if slow(f, c) else 2 if f.name in HEAVY else 3) if q else (2 if slow(f, c) else 4)
    h, st, cand, cols, n0 = long_run(h, f, c, R)
    if h is None:
        return
    settle = settle_of(c, h.lookback(f, c))
    mod = lcm(*range(1, 17))      # and every ring size met below
    R.bounds = '%s; %d counters, %d + %d bars before, %d compared, K multiple of %d' % (cfg, len(cand), n0, settle, w, mod)
    N = n0 + settle + w
    names = names_of(f)
    ins = [h.arr(nm, N, vals=[tm.fc(cols[k][i]) if i < N - w or nm == 'inPeriods' or warm(f, c) and not c.far else tm.var('%s_%d' % (nm, i)) for i in range(N)]) for k, (nm, _) in enumerate(f.ins)]

    def go(g):
        out = []
        for i in range(n0, N):
            r, v = g.step(f, st, at(g, ins, i))
            if i >= n0 + settle:
                out.append((i, r, v))
        return out
    A = go(h.fork())
    cells = int_cells(h, st)
    cnts = [(p,) + cells[p] for p in sorted(cand)]
    idx = [f_index(f, nm) for nm, _ in f.outs]      # a bar number, which grows with the history and ends at 2^31
    allmod = mod
    for tag, lo, hi in (('', 0, TOP), ('', 256, REAL), ('@2^31', 1 << 31, 1 << 62)):
        mod = allmod if hi != REAL else 1       # what is found below REAL is confirmed by really streaming K bars
        if hi == REAL and (R.cands or R.status == 'undecided'):
            continue
        if tag and (any(idx) or R.cands or R.status == 'undecided'):
            continue          # past 2^31 only what the advanced counters reproduce below it (there a report is confirmed by really streaming)
        ne = len(E.errors)
        site = task['f'] + tag if tag else task['key']
        while True:
            K = tm.set_base(lo, hi, mod)
            scen = dict(scen0, n0=n0, N=N, settle=settle, counters=[[list(p), sz] for p, obj, off, sz, v in cnts], mod=mod, ins=[x[:N] for x in cols])
            g = h.fork()
            for p, obj, off, sz, v in cnts:
                k = K if sz == 8 else tm.icast('trunc', K, 64, sz * 8)
                E.wobj(g.S, obj).cells[off] = (sz, tm.ibin('add', k, v, sz * 8))
            x = None
            try:
                B = go(g)
            except tm.Modulus as m:
                mod = lcm(mod, m.args[0]); allmod = lcm(allmod, mod)
                if mod > 1 << 30:
                    raise Unsupported('ring sizes without a common multiple in range')
                continue
            except PathAbort as e:
                x = e
            break
        R.bounds = '%s; %d counters, %d + %d bars before, %d compared, K multiple of %d' % (cfg, len(cand), n0, settle, w, mod)
        if x:
            R.queries.append(('K in %d..%d: returns' % (lo, hi), 'BOOL', 'sat'))
            R.cands.append({'site': site, 'text': 'no normal return after K more bars (%s)' % (E.errors[-1][0] if E.errors else x), 'scens': [dict(scen, K=kk(lo, mod))]})
            break
        for msg, cond in E.errors[ne:][:3]:
            v = 'unsat'
            for mode in ('UF', 'REAL'):
                tr = smt.Tr(mode)
                F = [tr.diagram(cond if mode == 'UF' else norm_of(cond))] + side(lo, hi, mod)
                v = smt.solve(F, 8000)
                if v == 'unsat':
                    break
            R.queries.append(('K in %d..%d memory: %s' % (lo, hi, msg[:60]), mode, v))
            if v == 'sat':
                m = smallest(F, lo, hi, mod)
                k = m.eval(z3.BitVec('K', 64), model_completion=True).as_long() if m is not None else kk(lo, mod)
                R.cands.append({'site': site, 'text': 'after %d more bars: %s' % (k, msg), 'scens': [dict(scen, K=k, build='asan'), dict(scen, K=k)]})
            elif v != 'unsat':
                R.status = 'undecided'; R.note = 'memory error: ' + msg
        if not R.cands:
            AK = A
            if any(idx):
                AK = [(i, r, [tm.ibin('add', tm.icast('trunc', K, 64, 32), x, 32) if d else x for x, d in zip(v, idx)]) for i, r, v in A]
            compare(task, f, c, N, names, h, ins, AK, B, R, site, scen, lo, hi, mod, t0)
        tm.set_base(None, None, None)
    finish(task, E, R)


def kk(lo, mod):
    return (lo + mod - 1) // mod * mod or mod


def side(lo, hi, mod):
    return smt.base_side({'lo': lo, 'hi': hi, 'mod': mod})


def smallest(A, lo, hi, mod):
    """a model with a small K"""
    K = z3.BitVec('K', 64)
    for top in (1 << 20, 1 << 23, REAL, None):
        if top is not None and top <= lo:
            continue
        r, m = smt.solve(A + side(lo, hi, mod) + ([K <= top] if top else []), 6000, want_model=True)
        if r == 'sat':
            return m
    return None


def compare(task, f, c, N, names, h, ins, A, B, R, site, scen, lo, hi, mod, t0):
    eq = decide.Eq(names, N, deadline=t0 + task['timeout'] * 0.9, extra=lambda tr: side(lo, hi, mod))
    eq.plains = [scen['ins']]
    lab0 = 'K in %d..%d ' % (lo, hi)
    same = []

    def cand(text, tr, F):
        dom = decide.domain(tr, names, N)
        m = smallest(F + dom, lo, hi, mod) or smallest(F, lo, hi, mod)
        if m is None:
            return False
        k = m.eval(z3.BitVec('K', 64), model_completion=True).as_long()
        a = patch(h, ins, decide.inputs(tr, m, names, N))
        R.cands.append({'site': site, 'text': text + ' after %d more bars' % k, 'scens': [dict(scen, K=k, ins=a), dict(scen, K=k)]})
        return True
    for (i, r1, v1), (_, r2, v2) in zip(A, B):
        if tm.same(r1, r2):
            same.append(('%sreturn code of bar %d' % (lab0, i), r1, r2, 'int'))
        else:
            cond = map2ne(r1, r2)
            done = False
            for mode in ('UF', 'REAL'):
                tr = smt.Tr(mode)
                F = [tr.diagram(cond if mode == 'UF' else norm_of(cond))]
                v = smt.solve(F + side(lo, hi, mod), 8000)
                if v == 'unsat':
                    R.queries.append(('%sreturn code of bar %d' % (lab0, i), mode, v)); done = True
                    break
            if not done:
                R.queries.append(('%sreturn code of bar %d' % (lab0, i), 'REAL', v))
                if v == 'sat' and cand('the return code of bar %d changes' % i, tr, F):
                    return
                R.status = 'undecided'; R.note = lab0 + 'return code: %s' % v
                return
        for (nm, ty), x, y in zip(f.outs, v1, v2):
            l = '%s%s[%d]' % (lab0, nm, i)
            if tm.same(x, y):
                same.append((l, x, y, ty)); continue
            v, found = eq.decide(l, x, y, ty, R)
            if v in ('sat', 'narrow'):
                if cand('%s of bar %d changes' % (nm, i), found[0], found[2]):
                    return
                v = 'sat without a small model'
            if v != 'unsat':
                R.status = 'undecided'; R.note = l + ': ' + v
    R.reached += len(A)
    eq.same_batch(same, R)


def norm_of(cond):
    from .. import norm
    return norm.ndiag(cond)


# ------------------------------------------------------------------ replay
def bump(st, counters, K):
    import ctypes as C
    for path, sz in counters:
        p = st.p.value
        for off in path[:-1]:
            p = C.cast(p + off, C.POINTER(C.c_void_p))[0]
        ty = {1: C.c_uint8, 2: C.c_uint16, 4: C.c_uint32, 8: C.c_uint64}[sz]
        q = C.cast(p + path[-1], C.POINTER(ty))
        q[0] = (q[0] + K) & ((1 << (8 * sz)) - 1)


def replay(s):
    from ..native import setup, batch, Stream, close
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    n0, N, K, ins = s['n0'], s['N'], s['K'], s['ins']
    st = Stream(f, c); st2 = Stream(f, c)
    bad = None
    for i in range(N):
        if i == n0:
            bump(st2, s['counters'], K)
        xs = [x[i] for x in ins]
        a = st.step(xs); b = st2.step(xs)
        if i >= n0 + s.get('settle', SETTLE) and bad is None:
            if a[0] != b[0]:
                bad = 'bar %d returns %d, with %d more bars before it %d' % (i, a[0], K, b[0])
            elif a[0] == 0:
                for (nm, _), x, y in zip(f.outs, a[1], b[1]):
                    if f_index(f, nm):
                        y -= K
                    if not close(x, y):
                        bad = '%s of bar %d is %r, with %d more bars before it %r' % (nm, i, x, K, y)
    if bad is None:
        return False, 'the same with %d more bars' % K
    if K <= REAL:
        t = for_real(f, c, s)
        if t is None:
            return False, bad + ' (advanced counters), but a stream that really ran %d bars agrees with the batch function' % (K + N)
        return True, bad + '; ' + t
    return True, bad + ' (bar counters of the state advanced)'


def for_real(f, c, s):
    """K bars and the scenario's bars really streamed, against the batch function over all of them"""
    import ctypes as C
    from ..native import Stream, CT, lib, optargs, close
    N, K = s['N'], s['K']
    n = K + N
    arrs = []
    for col in s['ins']:
        m = s['n0']
        a = (C.c_double * n)()
        blk = (C.c_double * m)(*col[:m])
        k = 0
        one = bytes(blk)
        whole = (one * (K // m + 1))[:K * 8]
        C.memmove(a, whole, K * 8)
        for i in range(N):
            a[K + i] = col[i]
        arrs.append(a)
    L = lib()
    b = C.c_int(0); nb = C.c_int(0)
    o1 = [(CT[t] * n)() for _, t in f.outs]; o2 = [(CT[t] * n)() for _, t in f.outs]
    r1 = getattr(L, 'TA_' + f.name)(C.c_int(0), C.c_int(n - 1), *arrs, *optargs(f, c), C.byref(b), C.byref(nb), *o1)
    beg, cnt = b.value, nb.value
    st = Stream(f, c)
    fn = getattr(L, 'TA_%s_State' % f.name)
    r2 = getattr(L, 'TA_%s_BatchState' % f.name)(st.p, C.c_int(0), C.c_int(n - 1), *arrs, C.byref(b), C.byref(nb), *o2)
    if r1 != 0 or r2 != 0:
        return 'batch returns %d, streaming %d bars returns %d' % (r1, n, r2)
    for (nm, ty), x, y in zip(f.outs, o1, o2):
        for i in range(max(beg, n - 400000), n):
            u, v = x[i - beg], y[i]
            if not close(u, v, 1e-5):
                return '%s of bar %d: streaming %r, batch %r (%d bars really streamed)' % (nm, i, v, u, n)
    return None
