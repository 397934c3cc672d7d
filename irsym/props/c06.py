"""C06: batch calls stay inside the caller's arrays, use nothing uninitialised and leak nothing."""
from .common import *
from .c07 import pairs
from ..meta import Cfg, base

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration, plus periods just below, at and above the sizes of the built-in static circular buffers (CCI 30/31/33, MFI 50/51): symbolic series of '
          'lookback+3 bars, every start/end pair with start and end around 0 and the lookback (thorough: all pairs), double precision; whole range, last bar and one inner range in single precision. '
          'The input arrays hold exactly end+1 elements, the output arrays exactly the number of elements the documentation tells the caller to allocate. Every load, store, copy, allocation and free is an obligation, '
          'so is every branch on and every output of uninitialised data, and every temporary being released.')
OUTSIDE = 'Longer series and larger periods; NaN inputs; indexes near the upper end of int.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed (C16 covers failures)']


def tasks(ctx):
    out = state_tasks(ctx, 80 if ctx.tier == 'quick' else 250)
    q = ctx.tier == 'quick'
    more = [('CCI', 31), ('MFI', 51)] if q else [('CCI', 30), ('CCI', 31), ('CCI', 33), ('MFI', 50), ('MFI', 51), ('MFI', 53)]
    for n, p in more:
        if n in ctx.api:
            f = ctx.api[n]
            out.append({'key': '%s/p%d' % (n, p), 'f': n, 'cfg': Cfg('p%d' % p, base(f, [p])), 'timeout': 100 if q else 250, 'w': 0, 'sym': 3, 'few': True})
    if not q:
        for n, f in ctx.api.items():
            ints = [o for o in f.opts if o.kind == 'int']
            if ints and n not in HEAVY and n not in SLOW and n != 'MAVP' and not n.startswith('CDL'):
                out.append({'key': '%s/p12' % n, 'f': n, 'cfg': Cfg('p12', base(f, [12, 14, 9])), 'timeout': 150, 'w': 6, 'few': True})
    out.sort(key=lambda t: t['w'])
    return out


def undef(v, memo):
    """condition (decision diagram) under which a value depends on uninitialised data"""
    if v is UNDEF:
        return True
    if type(v) is tm.Node:
        k = ('n', v)
        if k not in memo:
            memo[k] = tm.map1(lambda x: undef(x, memo), v)
        return memo[k]
    if type(v) is not tm.T or v.op in ('const', 'var', 'bvar'):
        return False
    if v.op == 'undef':
        return True
    if v.id not in memo:
        r = False
        for a in ([x for m, _ in v.args for x in m] if v.op == 'poly' else v.args):
            if type(a) in (tm.T, tm.Node) or a is UNDEF:
                r = bor(r, undef(a, memo))
        memo[v.id] = r
    return memo[v.id]


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h0 = mkh(ctx, f); E = h0.E
    cfg.apply(h0)
    lb = h0.lookback(f, c)
    N = lb + (FAR if c.big else 3)
    R.bounds = '%s, %d bars, lookback %d' % (cfg, N, lb)
    few = task.get('few')
    ps = [(0, N - 1), (lb, N - 1), (lb + 1, lb + 1)] if few else pairs(N, lb, ctx.tier, slow(f, c))
    runs = [('TA_', s, e) for s, e in ps]
    if slow(f, c):
        runs += [('TA_S_', 0, lb + 1)]
    else:
        runs += [('TA_S_', s, e) for s, e in ([(0, N - 1), (N - 1, N - 1)] + ([(1, lb), (lb, lb + 1)] if not few else []) if ctx.tier == 'quick' else ps) if 0 <= s <= e]
    site = task['key']
    pl = plain_inputs(f, c, N)
    inner = R.queries
    live0 = len(h0.live_heap())
    for pre, s, e in runs:
        h = h0.fork()
        E.errors.clear()
        b = max(s, lb)
        cap = max(0, e - b + 1)
        scen = {'f': f.name, 'cfg': cfg.json(), 's': s, 'e': e, 'cap': cap, 'pre': pre}
        lab = '%s%s %d..%d' % (pre, f.name, s, e)
        ins = mkin(h, f, c, e + 1, pre, task.get('sym') or (2 if f.name in SLOW2 else last_sym(f, 3) if c.big else None))

        def conc(tr, m):
            return patch(h, ins, decide.inputs(tr, m, names_of(f), e + 1)) if tr is not None and m is not None else [x[:e + 1] for x in pl]

        def sc(tr, m, kinds=('asan', 'plain')):
            return [dict(scen, ins=a, build=k) for a in (conc(tr, m), [x[:e + 1] for x in pl]) for k in kinds]
        try:
            r, ob, on, outs = h.batch(f, c, ins, s, e, cap, prefix=pre)
        except PathAbort as x:
            R.queries.append((lab, 'BOOL', 'sat'))
            R.cands.append({'site': site, 'text': '%s: no normal return (%s)' % (lab, E.errors[-1][0] if E.errors else x), 'scens': sc(None, None)})
            break
        for msg, cond in list(E.errors)[:4]:
            v, tr, m = decide.assert_unsat('%s memory: %s' % (lab, msg[:60]), cond, R, 'BOOL', 5000, names_of(f), e + 1)
            if v == 'sat':
                R.cands.append({'site': site, 'text': '%s: %s' % (lab, msg), 'scens': sc(tr, m, ('asan', 'pat', 'plain') if 'uninit' in msg else ('asan', 'plain'))})
            elif v != 'unsat':
                R.status = 'undecided'; R.note = '%s: solver gave %s on %s' % (lab, v, msg[:100])
        if not E.errors:
            decide.assert_unsat('%s memory' % lab, False, R)
        un = False; wh = ''; memo = {}
        for o, (nm, ty) in zip(outs, f.outs):
            for k in range(cap):
                u = undef(h.get(o, k, ty), memo)
                if u is not False and not wh: wh = '%s[%d] holds uninitialised data' % (nm, k)
                un = bor(un, u)
        v, tr, m = decide.assert_unsat('%s outputs initialised' % lab, un, R, 'BOOL', 5000, names_of(f), e + 1)
        if v == 'sat':
            R.cands.append({'site': site, 'text': '%s: %s' % (lab, wh), 'scens': sc(tr, m, ('pat',))})
        elif v != 'unsat':
            R.status = 'undecided'; R.note = '%s: outputs initialised: %s' % (lab, v)
        lv = False; wh = ''
        for nm, a in h.live_heap():
            lv = bor(lv, a); wh = wh or nm
        v, tr, m = decide.assert_unsat('%s temporaries released' % lab, lv, R, 'BOOL', 5000, names_of(f), e + 1)
        if v == 'sat':
            R.cands.append({'site': site, 'text': '%s: %s is not released' % (lab, wh), 'scens': sc(tr, m, ('fault',))})
        elif v != 'unsat':
            R.status = 'undecided'; R.note = '%s: release: %s' % (lab, v)
        R.reached += 1
        if R.cands:
            break
    finish(task, E, R)


def mkin(h, f, c, n, pre, sym):
    """input arrays of exactly n elements, in the precision of the entry point"""
    sort = 'f32' if pre == 'TA_S_' else 'f64'
    pl = plain_inputs(f, c, n) if sym else None
    out = []
    for k, (nm, _) in enumerate(f.ins):
        v = [tm.fc(x.val, sort) for x in period_vals(f, c, n)] if nm == 'inPeriods' else None
        if sym and v is None:
            v = [tm.fc(pl[k][i], sort) if i < n - sym else tm.var('%s_%d' % (nm, i), sort) for i in range(n)]
        out.append(h.arr(nm, n, sort=sort, vals=v))
    return out


def replay(s):
    from ..native import setup, lib, CT, optargs
    import ctypes as C, os
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    L = lib()
    kind = s.get('build', 'plain')
    single = s['pre'] == 'TA_S_'
    ty = C.c_float if single else C.c_double
    arrs = [(ty * max(1, s['e'] + 1))(*x[:s['e'] + 1]) for x in s['ins']]
    cap = s['cap']

    def go(L, fill=777):
        outs = [(CT[t] * max(1, cap))(*([fill] * max(1, cap))) for _, t in f.outs]
        ob, on = C.c_int(0), C.c_int(0)
        if kind == 'asan':           # exact-size heap blocks: the tool reports any access outside
            libc = C.CDLL(None); libc.malloc.restype = C.c_void_p; libc.memcpy.argtypes = [C.c_void_p, C.c_void_p, C.c_size_t]
            def blk(n, src=None):
                p = libc.malloc(C.c_size_t(n)); 
                if src is not None and n: libc.memcpy(p, C.cast(src, C.c_void_p), n)
                return C.c_void_p(p)
            a = [blk((s['e'] + 1) * C.sizeof(ty), x) for x in arrs]; o = [blk(cap * C.sizeof(CT[t])) for _, t in f.outs]
        else:
            a, o = arrs, outs
        r = getattr(L, s['pre'] + f.name)(C.c_int(s['s']), C.c_int(s['e']), *a, *optargs(f, c), C.byref(ob), C.byref(on), *o)
        return r, ob.value, on.value, [list(x)[:max(0, min(cap, on.value))] for x in outs]
    if kind == 'pat':
        L2 = C.CDLL(os.environ['VERIF_SO'] + '.zero')
        from .. import native
        native._lib = L2; setup(s['cfg'])
        a, b = go(L), go(L2, 778)
        ok = a[:3] == b[:3] and all(eqv(p, q) for x, y in zip(a[3], b[3]) for p, q in zip(x, y))
        return not ok, 'results depend on what unset memory holds: %r / %r' % (a, b)
    if kind == 'fault':
        n0 = L.irsym_live(); go(L); n = L.irsym_live() - n0
        return n != 0, '%d allocations of the call are left' % n
    r = go(L)
    return r[0] != 0, 'returned %r' % (r[:3],)
