"""C01: the streaming form of every function reproduces the batch form."""
import math
from .. import ta, terms as tm, decide, native
from ..terms import UNDEF
from ..engine import PathAbort
from ..meta import configs, HT_CYCLE, far_configs
from .common import series, mkh, finish, SLOW2, patch, plain_inputs, far_tasks, FAR, MORE

PART = SLOW2 | {'HT_PHASOR', 'MAMA'}

QUICK_BUDGET = 450
K = {'quick': 4, 'thorough': 7}
BOUNDS = ('Per function and listed option configuration (periods 1..5, every moving-average type where selectable, unstable period 1-2, both '
          'compatibility modes, small candle settings): symbolic input series of length lookback+4 (quick) / lookback+7 (thorough); all comparisons and '
          'branches symbolic (the Hilbert-transform functions with a 32/63 bar warm-up: last 3 (quick) / 5 bars symbolic after a fixed warm-up); loops fully unrolled (no bound was cut). '
          'One or two configurations per function also with the bar counters of the stream advanced by a symbolic number of bars (long/..., see C21): any history length.')
OUTSIDE = ('Longer series and larger periods; NaN/infinite inputs; rounding error (equality is bit-exact where decided by UF/ORD and over the reals '
           'otherwise); divisions by zero in the REAL steps.')
ASSUME = ['input values are not NaN', 'libm functions are deterministic functions of their arguments', 'malloc/calloc succeed (failure is C16)']


def tasks(ctx):
    out = []
    for n, f in ctx.api.items():
        if not f.has_state:
            continue
        for c in configs(f, ctx.tier == 'thorough'):
            t = 45 if ctx.tier == 'quick' else 240
            w = 1
            if n in HT_CYCLE or n == 'MAVP':
                w = 9
            out.append({'key': '%s/%s' % (n, c.name), 'f': n, 'cfg': c, 'timeout': t, 'w': w})
    out += far_tasks(ctx, 45 if ctx.tier == 'quick' else 240)
    out.sort(key=lambda t: t['w'])
    seen = set()
    for t in list(out):
        k = t['f'], any(x in t['cfg'].name for x in '357')
        if k not in seen:
            seen.add(k)
            out.append({'key': 'long/' + t['key'], 'f': t['f'], 'cfg': t['cfg'], 'timeout': 40 if ctx.tier == 'quick' else 200, 'w': t['w'], 'long': True})
    return out


def run(task, ctx, R):
    import time
    if task.get('long'):
        from . import c21
        return c21.run(task, ctx, R)
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    t0 = time.time()
    tm.set_nonan(True)
    h = mkh(ctx, f)
    E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    k = K[ctx.tier]
    if f.name in ('STOCH', 'STOCHF', 'WILLR', 'AROONOSC', 'MINMAX', 'ADX', 'ADXR', 'DX', 'STOCHRSI', 'ULTOSC') and ctx.tier == 'quick':
        k = 3
    if c.far:
        k = FAR
    N = lb + k
    R.bounds = '%s; %d inputs, %d outputs compared' % (cfg, N, k)
    ins = series(h, f, c, N, part=PART, sym=2 if c.far and ctx.tier == 'quick' else 3 if ctx.tier == 'quick' else 5)
    names = [nm for nm, _ in f.ins]
    hb = h.fork()
    r, b, nb, outs = hb.batch(f, c, ins, 0, N - 1, N)
    rr, hd = h.init_state(f, c)
    fail = None
    if r != 0 or b != lb or nb != N - lb or rr != 0:
        fail = 'batch/init returned %r begIdx %r nbElement %r init %r (lookback %r)' % (r, b, nb, rr, lb)
    same = []; diff = []
    if fail is None:
        st = h.state(hd)
        for i in range(N):
            try:
                r2, v = h.step(f, st, [h.get(a, i) for a in ins])
            except PathAbort as e:
                fail = 'bar %d: no normal return: %s' % (i, E.errors[-1][0] if E.errors else e)
                break
            want = ta.NEED_MORE if i < lb else 0
            if r2 != want:
                fail = 'bar %d returned %r, expected %r (lookback %d)' % (i, r2, want, lb)
                break
            if i < lb:
                continue
            for j, (o, (nm, ty)) in enumerate(zip(outs, f.outs)):
                x = hb.get(o, i - lb, ty)
                lab = '%s[%d]' % (nm, i)
                (same if tm.same(x, v[j]) else diff).append((lab, x, v[j], ty))
    finish(task, E, R)
    scen = {'f': f.name, 'cfg': cfg.json(), 'n': N}
    if fail:
        arr = plain_inputs(f, c, N)
        R.queries.append(('return codes', 'BOOL', 'sat'))
        R.cands.append({'site': '%s/%s:retcode' % (f.name, cfg.name), 'text': fail, 'scens': [dict(scen, ins=arr)]})
        return
    R.queries.append(('return codes and range', 'BOOL', 'unsat'))
    if E.errors:
        R.note = 'memory errors (see C05/C06): %s' % E.errors[0][0]
    R.reached = len(same) + len(diff)
    eq = decide.Eq(names, N, deadline=t0 + task['timeout'] * 0.85,
                   **({} if ctx.tier == 'quick' else dict(t_uf=4000, t_ord=10000, t_lin=20000, t_real=30000)))
    eq.slack = 1e-7 if c.far else None
    eq.plains = [plain_inputs(f, c, N, seed=s) for s in (0, 1)]
    eq.same_batch(same, R)
    bad = set()
    for lab, x, y, ty in diff:
        site = lab.split('[')[0]
        if site in bad:
            continue
        v, found = eq.decide(lab, x, y, ty, R)
        if v == 'sat':
            bad.add(site)
            ms = eq.models(found)
            for a in ms:
                patch(h, ins, a)
            R.cands.append({'site': '%s/%s' % (f.name, cfg.name), 'text': '%s differs between streaming and batch, %s' % (lab, cfg),
                            'scens': [dict(scen, ins=a) for a in ms]})
        elif v != 'unsat':
            R.status = 'undecided'
            R.note = 'solver gave unknown on %s' % lab
            if v == 'narrow':
                R.cands.append({'site': '%s/%s' % (f.name, cfg.name), 'text': '%s differs between streaming and batch, %s' % (lab, cfg),
                                'scens': [dict(scen, ins=patch(h, ins, inputs_of(found, eq)))]})


def finite(x):
    return x == x and abs(x) < 1e300


def replay(s):
    if 'counters' in s:
        from . import c21
        return c21.replay(s)
    from ..native import setup, batch, Stream, close
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    L = setup(s['cfg'])
    import ctypes as C
    lbf = getattr(L, 'TA_%s_Lookback' % f.name)
    lb = lbf(*native.optargs(f, c))
    N = len(s['ins'][0])
    r, b, nb, outs = batch(f, c, s['ins'], 0, N - 1)
    st = Stream(f, c)
    if r != 0 or b != lb or nb != N - lb or st.ret != 0:
        return True, 'batch returned %d begIdx %d nb %d, init %d, lookback %d, %d bars' % (r, b, nb, st.ret, lb, N)
    for i in range(N):
        rr, v = st.step([x[i] for x in s['ins']])
        want = 17 if i < lb else 0
        if rr != want:
            return True, 'streaming call %d returned %d, expected %d' % (i, rr, want)
        if i >= lb:
            for j in range(len(v)):
                x = outs[j][i - lb]
                if not close(x, v[j]):
                    return True, '%s at bar %d: batch %r streaming %r; inputs %s' % (f.outs[j][0], i, x, v[j], s['ins'])
    return False, 'streaming equals batch on this input'
