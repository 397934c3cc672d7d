"""C20: every output value is a number."""
import time, z3
from .common import *
from .. import domain, smt, norm

QUICK_BUDGET = 450
BOUNDS = ('Per indicator and listed option configuration: symbolic series (well-formed bars with prices 1..1000, bars without a range included, volumes 0..1000; plain inputs -1000..1000, restricted to the domain of the mathematical function) '
          'of lookback+3 bars (thorough +5; the cycle indicators: fixed numbers with the last 3 bars symbolic); no evaluated division of any output of the batch call has a zero divisor, no square root, logarithm or arc function an argument outside its domain; over the real numbers.')
OUTSIDE = 'Overflow and rounding; longer series, larger periods and other real option values. Calls starting later follow with C09, streams with C01, single precision with C11.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'divisors are compared with zero over the real numbers', 'sqrt and exp are not negative']

DOM = {'LN': (1, 1000), 'LOG10': (1, 1000), 'SQRT': (0, 1000), 'ACOS': (-1, 1), 'ASIN': (-1, 1)}


def tasks(ctx):
    q = ctx.tier == 'quick'
    return [t for t in state_tasks(ctx, 45 if q else 200) if any(ty == 'double' for _, ty in ctx.api[t['f']].outs) and not (t['cfg'].opt.far and t['f'] in DOM)]


def dom_of(f, names, n):
    def dom(tr):
        out = []
        lo, hi = DOM.get(f.name, (-1000, 1000))
        for i in range(n):
            d = {}
            for nm in names:
                x = tr.vars.get('%s_%d' % (nm, i))
                if x is None:
                    continue
                d[nm] = x
                if nm == 'inVolume': out += [x >= 0, x <= 1000]
                elif nm in decide.ROLE: out += [x >= 1, x <= 1000]
                elif f.name == 'DIV' and nm == 'inReal1': out += [x >= 1, x <= 1000]
                else: out += [x >= lo, x <= hi]
            l, h = d.get('inLow'), d.get('inHigh')
            if l is not None and h is not None: out.append(l <= h)
            for nm in ('inOpen', 'inClose'):
                if nm in d:
                    if l is not None: out.append(l <= d[nm])
                    if h is not None: out.append(d[nm] <= h)
        return out
    return dom


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + 3 + (0 if q or f.name in BIG else 2)
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, part=BIG, sym=(1 if q else 2) if f.name in SLOW2 else 3)
    R.bounds = '%s, %d bars' % (cfg, N)
    nm = names_of(f)
    scen = {'f': f.name, 'cfg': cfg.json(), 'ins': plain_inputs(f, c, N)}
    g = h.fork()
    r, t = call_batch(g, f, c, ins, 0, N - 1, N)
    if t or r[0] != 0 or r[2] != N - lb:
        R.queries.append(('call', 'BOOL', 'sat'))
        R.cands.append({'site': task['key'], 'text': t or 'code and element count %r %r' % (r[0], r[2]), 'scens': [scen, dict(scen, build='asan')]})
        return finish(task, E, R)
    V = vals(g, f, r[3], N - lb)
    dom = dom_of(f, nm, N)
    end = time.time() + (22 if q else 160)
    left = lambda ms: int(max(200, min(ms, (end - time.time()) * 1000)))
    pr = domain.Prover(nm, N, R, dom=dom, end=end, cands=[(tm.fc(0.0), None), (tm.fc(0.0), tm.fc(1.0)), (tm.fc(0.0), tm.fc(100.0))])
    tried = {}
    D = domain.Defined(pr, end)
    for i in range(N - lb):
        for k, (onm, ty) in enumerate(f.outs):
            if ty != 'double' or R.cands:
                continue
            lab = '%s of bar %d is a number' % (onm, lb + i)
            R.reached += 1
            x = V[k][i]
            if x is UNDEF:
                R.cands.append({'site': task['key'], 'text': lab, 'scens': [scen]})
                continue
            if D.show(x):
                R.queries.append((lab, 'LIN(piecewise)', 'unsat'))
                continue
            v = 'unknown'
            for mode, lem, cs in (('LIN', False, 0), ('LIN', False, 40), ('LIN', True, 0), ('REAL', False, 0)):
                if time.time() > end:
                    break
                if lem:
                    for t in domain.subterms(x, domain.cand):
                        if t.id not in tried:
                            tried[t.id] = 1; pr.lemma(t)
                    if not pr.lemmas:
                        continue
                tr = domain.RTr(mode)
                tr.cases = cs; tr.posvars = True
                u = domain.undefined(tr, x)
                if u is None:
                    u = z3.BoolVal(False)
                F = [u] + (pr.assume(tr) if lem else [])
                F += dom(tr)
                F += tr.side
                v, m = smt.solve(F, left(2000 if mode == 'LIN' else 5000), want_model=True)
                if v == 'unsat' or mode == 'REAL':
                    break
            R.queries.append((lab, mode + ('(lemmas)' if lem else ''), v))
            if v == 'sat':
                e = decide.Eq(nm, N)
                a = decide.inputs(tr, m, nm, N)
                R.cands.append({'site': task['key'], 'text': lab, 'scens': [dict(scen, ins=patch(h, ins, a))]})
            elif v != 'unsat':
                R.status = 'undecided'; R.note = '%s: %s' % (lab, v)
    finish(task, E, R)


def replay(s):
    from ..native import setup, lib, optargs
    import math
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    n = len(s['ins'][0])
    x = nat_batch(f, c, s['ins'], 0, n - 1)
    if x[0] != 0:
        return True, 'code %r' % x[0]
    for (nm, ty), v in zip(f.outs, x[3]):
        for i, y in enumerate(v):
            if ty == 'double' and not math.isfinite(y):
                return True, '%s of bar %d is %r' % (nm, x[1] + i, y)
    return False, 'every output is a number'
