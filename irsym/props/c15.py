"""C15: outputs stay in their documented domain."""
import time
from .common import *
from ..meta import Cfg
from .. import domain, smt, norm

QUICK_BUDGET = 450
BOUNDS = ('Per indicator and listed option configuration: symbolic well-formed series (prices 1..1000, low <= open, close <= high) of lookback+3 bars (thorough +5; the cycle indicators: fixed numbers with the last 3 bars symbolic); '
          'every output of the batch call over the whole series against its domain, over the real numbers with 1e-6 of slack.')
OUTSIDE = 'Longer series, larger periods and other real option values; rounding; CORREL (a Cauchy-Schwarz inequality the solvers do not reach); indicators without a bounded or ordered output. Calls starting later follow with C09, streams with C01, single precision with C11.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'outputs are compared over the real numbers', 'sqrt and exp are not negative, sin and cos within 1, atan within pi/2']

POS = 'CDL3STARSINSOUTH CDL3WHITESOLDIERS CDLCONCEALBABYSWALL CDLDOJI CDLDRAGONFLYDOJI CDLGRAVESTONEDOJI CDLHAMMER CDLHOMINGPIGEON CDLINVERTEDHAMMER CDLLADDERBOTTOM CDLLONGLEGGEDDOJI CDLMATCHINGLOW CDLMATHOLD CDLMORNINGDOJISTAR CDLMORNINGSTAR CDLPIERCING CDLRICKSHAWMAN CDLSTICKSANDWICH CDLTAKURI CDLUNIQUE3RIVER'.split()
NEG = 'CDL2CROWS CDL3BLACKCROWS CDLADVANCEBLOCK CDLDARKCLOUDCOVER CDLEVENINGDOJISTAR CDLEVENINGSTAR CDLHANGINGMAN CDLIDENTICAL3CROWS CDLINNECK CDLONNECK CDLSHOOTINGSTAR CDLSTALLEDPATTERN CDLTHRUSTING CDLUPSIDEGAP2CROWS'.split()
EDGE = ('CDLENGULFING', 'CDLHARAMI', 'CDLHARAMICROSS')


def signals(n):
    if n in POS: return (0, 100)
    if n in NEG: return (-100, 0)
    if n in EDGE: return (-100, -80, 0, 80, 100)
    if n.startswith('CDLHIKKAKE'): return (-200, -100, 0, 100, 200)
    return (-100, 0, 100)


# constant bounds per output
RANGE = {'RSI': (0, 100), 'STOCH': (0, 100), 'STOCHF': (0, 100), 'STOCHRSI': (0, 100), 'MFI': (0, 100), 'AROON': (0, 100), 'ULTOSC': (0, 100), 'ADX': (0, 100), 'ADXR': (0, 100), 'DX': (0, 100),
         'PLUS_DI': (0, 100), 'MINUS_DI': (0, 100), 'IMI': (0, 100), 'WILLR': (-100, 0), 'AROONOSC': (-100, 100), 'CMO': (-100, 100), 'BOP': (-1, 1), 'ATR': (0, None), 'TRANGE': (0, None), 'NATR': (0, None),
         'STDDEV': (0, None), 'VAR': (0, None), 'AVGDEV': (0, None), 'PLUS_DM': (0, None), 'MINUS_DM': (0, None), 'ROC': (-100, None), 'ROCP': (-1, None), 'ROCR': (0, None), 'ROCR100': (0, None),
         'HT_SINE': (-1, 1), 'HT_DCPHASE': (-45, 315), 'HT_DCPERIOD': (0, 50), 'LINEARREG_ANGLE': (-90, 90), 'SQRT': (0, None), 'SIN': (-1, 1), 'COS': (-1, 1), 'ATAN': (-1.5707964, 1.5707964), 'EXP': (0, None)}
# between the smallest and the largest input of the window
MEAN = {'SMA': 'inReal', 'WMA': 'inReal', 'TRIMA': 'inReal', 'EMA': 'inReal', 'KAMA': 'inReal', 'MIDPOINT': 'inReal', 'MIN': 'inReal', 'MAX': 'inReal', 'MINMAX': 'inReal', 'HT_TRENDLINE': 'inReal', 'MAMA': 'inReal',
        'WLMA': 'inReal', 'MAVP': 'inReal', 'MA': 'inReal', 'AVGPRICE': 'lh', 'MEDPRICE': 'lh', 'TYPPRICE': 'lh', 'WCLPRICE': 'lh', 'MIDPRICE': 'lh', 'SAR': 'lh'}
# outputs in ascending order
ORDER = {'BBANDS': (2, 1, 0), 'ACCBANDS': (2, 1, 0), 'MINMAX': (0, 1)}
INDEX = ('MAXINDEX', 'MININDEX', 'MINMAXINDEX')


def claimed(f, c):
    n = f.name
    if n == 'MA' and c['optInMAType'] in (3, 4, 8):     # DEMA, TEMA, T3 overshoot
        return False
    if n == 'BBANDS' and mama(c):
        return False
    return n in RANGE or n in MEAN or n in ORDER or n in INDEX or n in ('HT_TRENDMODE', 'FLOOR', 'CEIL') or n.startswith('CDL')


def tasks(ctx):
    q = ctx.tier == 'quick'
    out = [t for t in state_tasks(ctx, 40 if q else 200, lambda f, c: not (q and c.name == 'p51'), nosym=('STDDEV', 'VAR', 'BBANDS', 'SAR', 'SAREXT')) if claimed(ctx.api[t['f']], t['cfg'].opt)]
    if 'HT_DCPERIOD' in ctx.api:        # a slow series long enough for the period to reach its cap
        out.append({'key': 'HT_DCPERIOD/long', 'f': 'HT_DCPERIOD', 'cfg': Cfg('long', {}, unst={'HT_DCPERIOD': 24}), 'timeout': 40, 'w': 5})
    return out


def window(f, c, N, t):
    """bars an average at bar t may depend on"""
    if finite(f, c) and f.name not in ('MAVP', 'SAR'):
        p = [v for k, v in c.items() if 'Period' in k]
        return range(max(0, t - (p[0] if p else 1) + 1), t + 1)
    return range(t + 1)


class P(domain.Prover):
    pass


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    q = ctx.tier == 'quick'
    N = lb + 3 + (0 if q or f.name in BIG else 2)
    if c.far:
        N = lb + FAR
    ins = series(h, f, c, N, part=BIG, sym=(1 if q else 2) if f.name in SLOW2 else 3)
    R.bounds = '%s, %d bars' % (cfg, N)
    nm = names_of(f)
    scen = {'f': f.name, 'cfg': cfg.json(), 'ins': plain_inputs(f, c, N)}
    g = h.fork()
    r, t = call_batch(g, f, c, ins, 0, N - 1, N)
    if t or r[0] != 0 or r[2] != N - lb:
        R.queries.append(('call', 'BOOL', 'sat'))
        R.cands.append({'site': task['key'], 'text': t or 'code and element count %r %r' % (r[0], r[2]), 'scens': [scen, dict(scen, build='asan')]})
        return finish(task, E, R)
    V = vals(g, f, r[3], N - lb)
    K = lambda v: tm.fc(float(v))
    lov, hiv = tm.var('smallest!'), tm.var('largest!')
    end = time.time() + (22 if q else 160)
    rg = RANGE.get(f.name)
    cands = []
    if rg:
        cands.append((K(rg[0]), K(rg[1]) if rg[1] is not None else None))
    if f.name in MEAN:
        cands.append((lov, hiv))
    cands += [(K(0), K(1)), (K(-1), K(1)), (K(0), K(100)), (K(-100), K(100))]

    label_x = [None, None, False]

    def verdict(label, v, found):
        if v == 'sat':
            tr, m, F = found
            e = decide.Eq(nm, N)
            R.cands.append({'site': task['key'], 'text': label, 'scens': [dict(scen, ins=patch(h, ins, a)) for a in e.models(found)] + [scen]})
        elif v != 'unsat':
            R.status = 'undecided'; R.note = '%s: %s' % (label, v)
            narrowed(label)

    def narrowed(label):
        k = (pm if label_x[2] else pr)
        tr, F = k.formulas(label_x[0], label_x[1])
        found = decide.narrow(tr, F, nm, N, [scen['ins']])
        if found:
            R.queries.append((label, 'REAL(one free bar)', 'sat'))
            R.cands.append({'site': task['key'], 'text': label, 'scens': [dict(scen, ins=patch(h, ins, decide.inputs(tr, found[1], nm, N))), scen]})

    def intclaim(label, d, ok):
        bad = False
        for cnd, l in tm.leaves(d):
            if type(l) is not int or not ok(l):
                bad = bor(bad, cnd)
        v, tr, m = decide.assert_unsat(label, bad, R, 'BOOL', 3000, nm, N)
        if v == 'sat':
            R.cands.append({'site': task['key'], 'text': label, 'scens': [dict(scen, ins=patch(h, ins, decide.inputs(tr, m, nm, N))) if tr else scen, scen]})
        elif v != 'unsat':
            R.status = 'undecided'; R.note = '%s: %s' % (label, v)

    base = lambda tr: decide.domain(tr, nm, N)
    pm = None
    pr = P(nm, N, R, dom=base, end=end, cands=cands)
    for i in range(N - lb):
        t = lb + i
        if R.cands or R.status != 'ok':
            break
        if f.name.startswith('CDL'):
            s = signals(f.name)
            intclaim('signal of bar %d is one of %s' % (t, s), V[0][i], lambda l: l in s)
            R.reached += 1
        elif f.name == 'HT_TRENDMODE':
            intclaim('mode of bar %d is 0 or 1' % t, V[0][i], lambda l: l in (0, 1))
            R.reached += 1
        elif f.name in INDEX:
            p = c['optInTimePeriod']
            for k, (onm, ty) in enumerate(f.outs):
                intclaim('%s of bar %d lies in the window' % (onm, t), V[k][i], lambda l: t - p < l <= t)
                mx = 'Max' in onm or f.name == 'MAXINDEX'
                bad = False
                for cnd, l in tm.leaves(V[k][i]):
                    if type(l) is int and 0 <= l < N:
                        for j in range(max(0, t - p + 1), t + 1):
                            a, b = h.get(ins[0], l), h.get(ins[0], j)
                            bad = bor(bad, band(cnd, tm.fcmp('olt', a, b) if mx else tm.fcmp('olt', b, a)))
                lab = '%s of bar %d holds the extreme value' % (onm, t)
                v, tr, m = decide.assert_unsat(lab, bad, R, 'BOOL', 3000, nm, N)
                if v == 'sat':
                    R.cands.append({'site': task['key'], 'text': lab, 'scens': [dict(scen, ins=decide.inputs(tr, m, nm, N))]})
                elif v != 'unsat':
                    R.status = 'undecided'; R.note = '%s: %s' % (lab, v)
                R.reached += 1
        if rg and not f.name.startswith('CDL'):
            for k, (onm, ty) in enumerate(f.outs):
                for w, x, y in (('at least %g' % rg[0], K(rg[0]), V[k][i]),) + ((('at most %g' % rg[1], V[k][i], K(rg[1])),) if rg[1] is not None else ()):
                    lab = '%s of bar %d is %s' % (onm, t, w)
                    label_x[:] = [x, y, False]; verdict(lab, *pr.claim(lab, x, y))
                    R.reached += 1
                if R.status == 'ok' and not R.cands:
                    pr.known(V[k][i], K(rg[0]), K(rg[1]) if rg[1] is not None else None)
        if f.name in ORDER:
            o = ORDER[f.name]
            for a, b in zip(o, o[1:]):
                lab = '%s of bar %d is not above %s' % (f.outs[a][0], t, f.outs[b][0])
                label_x[:] = [V[a][i], V[b][i], False]; verdict(lab, *pr.claim(lab, V[a][i], V[b][i]))
                R.reached += 1
        if f.name in MEAN:
            w = window(f, c, N, t)
            kind = MEAN[f.name]
            def dom(tr, w=w, kind=kind):
                out = base(tr)
                l, u = tr.term(lov), tr.term(hiv)
                out += [l >= 0, u <= 1001, l <= u]
                for j in w:
                    for a, n in zip(ins, nm):
                        if kind == 'lh' and n == 'inLow': out.append(tr.term(h.get(a, j)) >= l)
                        elif kind == 'lh' and n == 'inHigh': out.append(tr.term(h.get(a, j)) <= u)
                        elif n == kind: out += [tr.term(h.get(a, j)) >= l, tr.term(h.get(a, j)) <= u]
                return out
            if not pm or len(w) < t + 1:
              pm = P(nm, N, R, dom=dom, end=end, cands=[(lov, hiv)] + [x for x in cands if x[0] is not lov])
            pm.dom = dom
            for k, (onm, ty) in enumerate(f.outs):
                if R.status != 'ok':
                    continue
                for wd, x, y in (('below the window', lov, V[k][i]), ('above the window', V[k][i], hiv)):
                    lab = '%s of bar %d is not %s' % (onm, t, wd)
                    label_x[:] = [x, y, True]; verdict(lab, *pm.claim(lab, x, y))
                    R.reached += 1
                if R.status == 'ok' and not R.cands:
                    pm.known(V[k][i], lov, hiv)
    finish(task, E, R)


def replay(s):
    from ..native import setup, lib, optargs
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    n = len(s['ins'][0])
    lb = getattr(lib(), 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    x = nat_batch(f, c, s['ins'], 0, n - 1)
    if x[0] != 0 or x[1] != lb or x[2] != n - lb:
        return True, 'code, begin and count %r' % (x[:3],)
    nm = names_of(f)
    tol = 1e-7 * 1000
    for i in range(n - lb):
        t = lb + i
        o = [v[i] for v in x[3]]
        what = None
        if f.name.startswith('CDL'):
            if o[0] not in signals(f.name): what = 'a signal of %d' % o[0]
        elif f.name == 'HT_TRENDMODE':
            if o[0] not in (0, 1): what = 'a mode of %d' % o[0]
        elif f.name in INDEX:
            p = c['optInTimePeriod']
            for v, (onm, _) in zip(o, f.outs):
                mx = 'Max' in onm or f.name == 'MAXINDEX'
                w = s['ins'][0][t - p + 1:t + 1]
                if not t - p < v <= t: what = '%s %d outside the window' % (onm, v)
                elif s['ins'][0][v] != (max(w) if mx else min(w)): what = '%s %d does not hold the extreme' % (onm, v)
        rg = RANGE.get(f.name)
        sl = 2e-7 if not rg or rg[1] is None or rg[1] < 50 else 1e-6
        if rg and not f.name.startswith('CDL'):
            for v, (onm, _) in zip(o, f.outs):
                if not v >= rg[0] - sl or rg[1] is not None and not v <= rg[1] + sl:
                    what = '%s %r' % (onm, v)
        if f.name in ORDER:
            w = [o[k] for k in ORDER[f.name]]
            for a, b in zip(w, w[1:]):
                if not a <= b + 1e-7: what = 'outputs %r out of order' % (o,)
        if f.name in MEAN:
            w = window(f, c, n, t)
            kind = MEAN[f.name]
            L = s['ins'][nm.index('inLow' if kind == 'lh' else kind)]; H = s['ins'][nm.index('inHigh' if kind == 'lh' else kind)]
            for v, (onm, _) in zip(o, f.outs):
                if not min(L[j] for j in w) - 1e-7 <= v <= max(H[j] for j in w) + 1e-7: what = '%s %r outside the range of its window' % (onm, v)
        if what:
            return True, 'bar %d: %s' % (t, what)
    return False, 'every output is in its domain'
