"""C13: indicators compute their textbook definitions."""
import os
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per indicator and listed option configuration: symbolic series of lookback+3 bars (thorough +5; the cycle indicators: fixed numbers with the last 3 bars symbolic); every output of the batch call over the whole series '
          'against the reference definition (irsym/refs.c) executed symbolically on the same series, compared over the real numbers with the same conventions for degenerate windows '
          '(zero divisors, |x|<1e-14 treated as zero).')
OUTSIDE = 'Longer series, larger periods and other real option values; rounding. Calls starting later follow with C09, streams with C01, single precision with C11.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'outputs are compared over the real numbers', 'irsym/refs.c states the published formulas']
EXTRA = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', n) for n in ('refs.c', 'refs_cdl.c')]


HARD = ('AROON', 'AROONOSC', 'MAXINDEX', 'MININDEX', 'MINMAXINDEX', 'WILLR', 'RSI', 'BETA', 'ACCBANDS')      # windows beyond 256 bars are out of reach of the quick tier


def tasks(ctx):
    q = ctx.tier == 'quick'
    out = [t for t in state_tasks(ctx, 45 if q else 200, lambda f, c: not (q and c.name == 'p51'), nobig=HARD if q else ()) if has_ref(ctx, t['f']) and not (t['f'] == 'BBANDS' and 'MAMA' in t['cfg'].name)]   # two orders of summing fixed numbers
    if q:
        for n, f in ctx.api.items():
            if n.startswith('CDL'):     # default settings and penetration, settings without a window
                out += [{'key': '%s/%s' % (n, c.name), 'f': n, 'cfg': c, 'timeout': 45, 'w': 1} for c in configs(f, True)[-2:]]
        out.sort(key=lambda t: t['w'])
    return out


def has_ref(ctx, n):
    return ('void REF_%s(' % n) in REFS or n in MACROS


REFS = open(EXTRA[0]).read() + open(EXTRA[1]).read()
import re
MACROS = set(re.findall(r'\b(?:MATH1|MATH2|LINE|CHANGE)\((\w+),', REFS)) | {'CDL' + x for x in re.findall(r'\bCDL\((\w+),', REFS)}


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + 3 + (0 if q or f.name in BIG else 2)
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, part=BIG, sym=(1 if q else 2) if f.name in SLOW2 else 3)
    R.bounds = '%s, %d bars' % (cfg, N)
    C = Cmp(f, N, R, task['key'], h, ins)
    scen = {'f': f.name, 'cfg': cfg.json(), 'ins': plain_inputs(f, c, N), 'build': 'ref'}
    g = h.fork()
    r, t = call_batch(g, f, c, ins, 0, N - 1, N)
    if t:
        C.fail(t, scen)
        return finish(task, E, R)
    d = code_eq(R, 'call', [('return code', r[0], 0), ('begin index', r[1], lb), ('element count', r[2], N - lb)], names_of(f), N)
    if d:
        C.fail(d[0], scen)
        return finish(task, E, R)
    k = h.fork()
    outs = [k.buf(N, ty, 'reference ' + nm) for nm, ty in f.outs]
    k.call('REF_' + f.name, N, *ins, *k.opts(f, c), *outs)
    C.add_runs('', vals(g, f, r[3], N - lb), vals(k, f, outs, N), scen, b0=lb, n=N - lb)
    C.decide('the value is not the one of the definition')
    finish(task, E, R)


def replay(s):
    from ..native import setup, lib, optargs, CT
    import ctypes
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    n = len(s['ins'][0])
    lb = getattr(lib(), 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    x = nat_batch(f, c, s['ins'], 0, n - 1)
    if x[0] != 0 or x[1] != lb or x[2] != n - lb:
        return True, 'code, begin and count %r' % (x[:3],)
    outs = [(CT[t] * n)() for _, t in f.outs]
    arrs = [(ctypes.c_double * n)(*v) for v in s['ins']]
    getattr(lib(), 'REF_' + f.name)(ctypes.c_int(n), *arrs, *optargs(f, c), *outs)
    for (nm, ty), p, q in zip(f.outs, x[3], outs):
        for k in range(n - lb):
            if not native.close(p[k], q[lb + k]):
                return True, '%s of bar %d is %r, the definition gives %r' % (nm, lb + k, p[k], q[lb + k])
    return False, 'the definition gives the same values'
