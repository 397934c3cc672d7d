"""shared by the property modules"""
import math
from .. import ta, terms as tm, decide, native
from ..terms import UNDEF, band, bor, bnot
from ..engine import PathAbort
from ..meta import configs, far_configs, sym_configs, HT_CYCLE, HEAVY

BIG = {'HT_DCPERIOD', 'HT_DCPHASE', 'HT_PHASOR', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE', 'MAMA'}   # lookback 32..63 bars
SLOW2 = {'HT_DCPHASE', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE'}
SLOW = {'HT_DCPHASE', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE', 'HT_PHASOR', 'HT_DCPERIOD', 'MAMA'}


def state_tasks(ctx, timeout, filt=None, names=None, nosym=(), nobig=()):
    out = []
    for n, f in ctx.api.items():
        if not f.has_state or (names and n not in names):
            continue
        for c in configs(f, ctx.tier == 'thorough'):
            if filt and not filt(f, c):
                continue
            out.append({'key': '%s/%s' % (n, c.name), 'f': n, 'cfg': c, 'timeout': timeout, 'w': 9 if n in SLOW or 'MAMA' in c.name else 5 if n in HEAVY else 1})
    if not names:
        out += [t for t in far_tasks(ctx, timeout, filt) if not (t['cfg'].opt.sym and t['f'] in nosym or t['cfg'].opt.big and (nobig is True or t['f'] in nobig))]
    out.sort(key=lambda t: t['w'])
    return out


def period_vals(f, c, N):
    lo, hi = c['optInMinPeriod'], c['optInMaxPeriod']
    return [tm.fc(float(lo - 1 + (i * 3) % (hi - lo + 3))) for i in range(N)]


def mama(c):
    """a configuration whose moving average is MAMA"""
    return 7 in [v for k, v in c.items() if k.endswith('MAType')]


def slow(f, c):
    return f.name in SLOW or mama(c) or getattr(c, 'far', False)


def warm(f, c, part=None):
    """does the (data dependent) warm-up of this configuration run on fixed numbers?"""
    return f.name in (part or SLOW2) or mama(c) or getattr(c, 'far', False)


MORE = (' Further configurations: default options, and windows of 257..262 bars where the options allow them (far/...: a series of lookback+24 bars, fixed numbers but for the last 1-3 '
        'bars; equal up to 1e-7, and 1e-4 against single precision, where fixed numbers are rounded), and real options symbolic over their whole published range with small windows (opt/...). '
        'Left out of single checks: see nosym/nobig in its tasks().')


FAR = 24        # bars after the lookback in a long series


def far_tasks(ctx, timeout, filt=None):
    out = []
    for n, f in ctx.api.items():
        for c in far_configs(f) + sym_configs(f) if f.has_state else ():
            if not filt or filt(f, c):
                out.append({'key': '%s/%s/%s' % ('far' if c.opt.far else 'opt', n, c.name), 'f': n, 'cfg': c, 'timeout': timeout, 'w': 5 if n in SLOW else 2})
    return out


def last_sym(f, n):
    """symbolic bars after a long series of fixed numbers; fewer where a window of them is searched"""
    return 1 if f.name in HEAVY or f.name in ('MAX', 'MIN') else n


def series(h, f, c, N, tag='', sym=3, part=None):
    """symbolic input arrays; for the functions with a warm-up of 32..63 bars and a data-dependent inner loop
    all but the last `sym` bars are fixed numbers"""
    if getattr(c, 'big', False):
        sym = last_sym(f, sym)
    if warm(f, c, part):
        pl = plain_inputs(f, c, N)
        return [h.arr(tag + nm, N, vals=[tm.fc(pl[k][i]) if i < N - sym else tm.var('%s%s_%d' % (tag, nm, i)) for i in range(N)]) for k, (nm, _) in enumerate(f.ins)]
    return [h.arr(tag + nm, N, vals=period_vals(f, c, N) if nm == 'inPeriods' else None) for nm, _ in f.ins]


def fseries(h, f, c, N, sym=3, part=None):
    """the same as series() for the single-precision entry points"""
    pl = plain_inputs(f, c, N)
    out = []
    for k, (nm, _) in enumerate(f.ins):
        pv = period_vals(f, c, N) if nm == 'inPeriods' else None
        conc = warm(f, c, part)
        out.append(h.arr(nm, N, sort='f32', vals=[tm.fc(pv[i].val, 'f32') if pv else tm.fc(pl[k][i], 'f32') if conc and i < N - sym else tm.var('%s_%d' % (nm, i), 'f32') for i in range(N)]))
    return out


def at(h, ins, i):
    return [h.get(a, i) for a in ins]


def patch(h, ins, arr):
    """concrete input arrays of a counterexample: the fixed entries of the symbolic arrays"""
    for k, a in enumerate(ins):
        for i in range(len(arr[k])):
            v = h.get(a, i)
            if getattr(v, 'op', None) == 'const':
                arr[k][i] = v.val
    return arr


def names_of(f):
    return [nm for nm, _ in f.ins]


def plain_inputs(f, c, N, seed=0):
    """a deterministic concrete series with rises, falls, ties and gaps"""
    import random
    r = random.Random(1234 + seed)
    out = {nm: [] for nm in names_of(f)}
    p = 20.0
    slow = f.name in BIG and getattr(c, 'slow', False)
    for i in range(N):
        o = p + r.choice([-2, -1, -0.5, 0, 0, 0.5, 1, 2]); cl = o + r.choice([-3, -1.5, -0.25, 0, 0, 0.25, 1.5, 3])
        hi = max(o, cl) + r.choice([0, 0, 0.25, 1, 2]); lo = min(o, cl) - r.choice([0, 0, 0.25, 1, 2])
        p = max(10.0, cl)
        if slow:        # the dominant cycle reaches its upper limit
            o, cl = [round(50 + 20 * math.sin(2 * math.pi * (i + d) / 80), 2) for d in (0, 1)]
            hi = max(o, cl) + 1; lo = min(o, cl) - 1
        for nm in out:
            k = nm.lower()
            v = {'inopen': o, 'inhigh': hi, 'inlow': lo, 'inclose': cl, 'involume': 100.0 + r.randrange(0, 50)}.get(k)
            if v is None:
                v = cl if k in ('inreal', 'inreal0') else o
            if nm == 'inPeriods':
                a, b = c['optInMinPeriod'], c['optInMaxPeriod']
                v = float(a - 1 + (i * 3) % (b - a + 3))
            out[nm].append(v)
    return [out[nm] for nm in names_of(f)]


def mkh(ctx, f):
    h = ta.H(ctx.lk)
    if f.name in SLOW2:
        h.E.maxiter = 55        # the dominant cycle is clamped to 50 bars by the code: unwinding assertions below
    return h


def finish(task, E, R):
    R.encoded |= set(E.encoded)
    R.steps = E.steps; R.states = E.nstates
    if E.unrolls:
        import time
        end = time.time() + 40
        for fn, cond in {id(c): (fn, c) for fn, c in E.unrolls}.values():
            v, _, _ = decide.assert_unsat('unwinding assertion', cond, R, 'BOOL', max(500, min(12000, int((end - time.time()) * 1000))))
            if v != 'unsat':
                R.status = 'undecided'; R.note = 'unwinding assertion of %s: %s' % (fn, v)
                break


def errors_to(site, E, R, scens, limit=3, what=''):
    """memory errors of the run as candidate violations; obligations reported to the solver"""
    from .. import decide
    for msg, cond in E.errors[:limit]:
        v, tr, m = decide.assert_unsat('memory: ' + msg[:60], cond, R, 'BOOL', 4000)
        if v == 'sat':
            R.cands.append({'site': site, 'text': what + msg, 'scens': scens(tr, m)})
        elif v != 'unsat':
            R.status = 'undecided'; R.note = 'solver gave %s on a memory obligation' % v
    if not E.errors:
        decide.assert_unsat('memory obligations', False, R)


def eqv(a, b):
    return a == b or (a != a and b != b)


def vals(h, f, outs, n):
    return [[h.get(o, k, ty) for k in range(max(0, n))] for o, (nm, ty) in zip(outs, f.outs)]


def inputs_of(found, eq):
    tr, m, F = found
    return decide.inputs(tr, m, eq.names, eq.n)


class Cmp:
    """collects value pairs of two runs and decides their equality"""

    def __init__(self, f, N, R, site, h, ins, **kw):
        self.f = f; self.R = R; self.site = site; self.h = h; self.ins = ins
        self.eq = decide.Eq(names_of(f), N, **kw)
        if site.startswith('far/'):
            self.eq.slack = 1e-7
        self.same = []; self.diff = []

    def add(self, label, x, y, ty, scen):
        if x is UNDEF and y is UNDEF:
            return
        if x is UNDEF or y is UNDEF:
            self.R.queries.append((label, 'BOOL', 'sat'))
            self.R.cands.append({'site': self.site, 'text': '%s: %s run holds no value' % (label, 'first' if x is UNDEF else 'second'), 'scens': [scen, dict(scen, build='asan')]})
            return
        (self.same if tm.same(x, y) else self.diff).append((label, x, y, ty, scen))

    def add_runs(self, label, A, B, scen, a0=0, b0=0, n=None, shift=0):
        for (nm, ty), p, q in zip(self.f.outs, A, B):
            for k in range(n if n is not None else min(len(p) - a0, len(q) - b0)):
                y = q[b0 + k]
                if shift and f_index(self.f, nm):
                    y = tm.map1(lambda v: v + shift if type(v) is int else v, y)
                self.add('%s %s[%d]' % (label, nm, k), p[a0 + k], y, ty, scen)

    def fail(self, text, scen):
        self.R.queries.append((text[:60], 'BOOL', 'sat'))
        self.R.cands.append({'site': self.site, 'text': text, 'scens': [scen, dict(scen, build='asan')]})

    def decide(self, what, limit=1):
        R = self.R
        if R.cands:
            return
        for i in range(0, len(self.same), 60):
            self.eq.same_batch([x[:4] for x in self.same[i:i + 60]], R)
        R.reached += len(self.same) + len(self.diff)
        n = 0
        for l, x, y, t, scen in self.diff:
            self.eq.plains = [scen['ins']] if scen.get('ins') and len(scen['ins'][0]) >= self.eq.n and n == 0 and len(R.cands) < 3 else []
            v, found = self.eq.decide(l, x, y, t, R)
            if v == 'narrow':
                R.status = 'undecided'; R.note = '%s: unknown' % l
                R.cands.append({'site': self.site, 'text': '%s: %s' % (l, what), 'scens': [dict(scen, ins=patch(self.h, self.ins, inputs_of(found, self.eq))), scen]})
                continue
            if v == 'sat':
                R.cands.append({'site': self.site, 'text': '%s: %s' % (l, what),
                                'scens': [dict(scen, ins=patch(self.h, self.ins, m)) for m in self.eq.models(found)] + [scen]})
                n += 1
                if n >= limit:
                    break
            elif v != 'unsat':
                R.status = 'undecided'; R.note = '%s: %s' % (l, v)


def finite(f, c, cfg=None):
    """does a value depend on the bars of its window only"""
    n = f.name
    if n in FOREVER:
        return False
    for o in f.opts:
        if o.kind == 'ma' and c[o.name] not in (0, 2, 5):
            return False
    return True


FOREVER = {'AD', 'ADOSC', 'OBV', 'ADX', 'ADXR', 'ATR', 'CMO', 'DEMA', 'DX', 'EMA', 'HT_DCPERIOD', 'HT_DCPHASE', 'HT_PHASOR', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE', 'KAMA', 'MACD',
           'MACDFIX', 'MAMA', 'MINUS_DI', 'MINUS_DM', 'NATR', 'NVI', 'PLUS_DI', 'PLUS_DM', 'PVI', 'RSI', 'SAR', 'SAREXT', 'STOCHRSI', 'T3', 'TEMA', 'TRIX', 'WLMA', 'WAD', 'PVT'}


def f_index(f, nm):
    return f.name in ('MAXINDEX', 'MININDEX') or f.name == 'MINMAXINDEX'


def call_batch(g, f, c, ins, s, e, cap, prefix='TA_', outs=None):
    """batch call; None instead of a tuple and a text when it does not return normally"""
    E = g.E; ne = len(E.errors)
    try:
        r = g.batch(f, c, ins, s, e, cap, prefix=prefix, outs=outs)
    except PathAbort as x:
        return None, 'no normal return (%s)' % (E.errors[-1][0] if E.errors else x)
    if len(E.errors) > ne:
        return None, 'memory error: %s' % E.errors[ne][0]
    return r, None


def code_eq(R, label, pairs_, names, n):
    """(what, got, wanted) values that may be decision diagrams: text of a difference or None"""
    for what, x, w in pairs_:
        cond = False if type(x) is int and type(w) is int and x == w else map2ne(x, w)
        v, tr, m = decide.assert_unsat('%s: %s' % (label, what), cond, R, 'BOOL', 4000, names, n)
        if v == 'sat':
            return '%s %s is %s, expected %s' % (label, what, tm.show(x, 3) if type(x) is not int else x, tm.show(w, 3) if type(w) is not int else w), tr, m
        if v != 'unsat':
            R.status = 'undecided'; R.note = '%s %s: %s' % (label, what, v)
    return None


def map2ne(x, w):
    r = False
    if type(x) is not tm.Node and type(w) is not tm.Node:
        return x != w
    for c1, a in tm.leaves(x):
        for c2, b in tm.leaves(w):
            if a is UNDEF or b is UNDEF or a != b:
                r = bor(r, band(c1, c2))
    return r


def nat_batch(f, c, ins, s, e, single=False, off=0, alias=None):
    """native batch call returning (ret, begin, count, outputs); alias: {output: input} sharing memory"""
    import ctypes as C
    from ..native import lib, CT, optargs
    ty = C.c_float if single else C.c_double
    arrs = [(ty * max(1, len(x)))(*x) for x in ins]
    cap = max(1, e - s + 1)
    outs = [(CT[t] * cap)(*([777] * cap)) for _, t in f.outs]
    for o, i in (alias or {}).items():
        outs[o] = arrs[i]
    b = C.c_int(-99); n = C.c_int(-99)
    fn = getattr(lib(), ('TA_S_' if single else 'TA_') + f.name)
    p = [C.byref(a, off * C.sizeof(ty)) for a in arrs]
    r = fn(C.c_int(s), C.c_int(e), *p, *optargs(f, c), C.byref(b), C.byref(n), *outs)
    k = max(0, min(n.value, cap))
    return r, b.value, n.value, [list(o)[:k] for o in outs]
