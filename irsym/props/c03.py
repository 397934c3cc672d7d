"""C03: a saved and reloaded stream continues exactly like the original."""
import z3
from .common import *
from .. import smt

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: a stream fed k symbolic bars, k in {0, 1, lookback, lookback+2} (quick) / every k up to lookback+2 '
          '(thorough), is saved to a symbolic file; two streams in different moments are saved one after the other; the loaded streams and the originals are continued '
          'until lookback+2 symbolic bars have been fed (at least 2) and compared bit by bit; a copy that was never saved is continued as well. One or two configurations per function (long/...) is saved after n + K bars, '
          'its bar counters advanced by a symbolic K up to 2^62.')
OUTSIDE = 'Longer series and continuations, larger periods; files damaged or produced by another build (C04 covers short files).'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed', 'fread/fwrite transfer all bytes', 'the program reading the file is the one that wrote it']


def tasks(ctx):
    return long_tasks(ctx, state_tasks(ctx, 60 if ctx.tier == 'quick' else 200, None if ctx.tier != 'quick' else (lambda f, c: not (f.name in HEAVY and c.name not in ('p2', 'p2,2,3', 'p1,2,3', 'p2,2,2', 'def'))
                       and not c.name in ('cdl-none',)), nosym=('SAREXT',)))


def long_tasks(ctx, out):
    seen = set()
    for t in list(out):
        # one configuration per function, and one whose rings are no power of two
        k = t['f'], any(x in t['cfg'].name for x in '357')
        if k not in seen:
            seen.add(k)
            out.append(dict(t, key='long/' + t['key'], long=True))
    return out


def run_long(task, ctx, R):
    """the stream is saved after any number of bars: its bar counters advanced by a symbolic K"""
    from . import c21
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    tm.set_base(None, None, None)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    h, st, cand, cols, n0 = c21.long_run(h, f, c, R)
    if h is None:
        return
    N = n0 + 3
    R.bounds = '%s, saved after %d + K bars, 3 more bars' % (cfg, n0)
    cells = c21.int_cells(h, st)
    hi = c21.TOP if any(f_index(f, nm) for nm, _ in f.outs) else 1 << 62
    mod = c21.lcm(*range(1, 17))
    lo = 0
    while True:
        K = tm.set_base(lo, hi, mod)
        scen = {'f': f.name, 'cfg': cfg.json(), 'n0': n0, 'N': N, 'counters': [[list(p), cells[p][2]] for p in sorted(cand)], 'ins': [x[:N] for x in cols]}
        g = h.fork()
        for p in sorted(cand):
            obj, off, sz, v = cells[p]
            k = K if sz == 8 else tm.icast('trunc', K, 64, sz * 8)
            E.wobj(g.S, obj).cells[off] = (sz, tm.ibin('add', k, v, sz * 8))
        ne = len(E.errors); bad = None; rows = []
        try:
            a = g.fork()
            ref = [a.step(f, st, [tm.fc(x[i]) for x in cols]) for i in range(n0, N)]
            ne = len(E.errors)          # what the advanced stream itself does is C21's
            fl = E.new_file(g.S)
            r1 = g.call('TA_%s_StateSave' % f.name, st, fl)
            E.file_rewind(g.S, fl)
            la = g.ptrvar('loaded', (0, 0))
            r2 = g.call('TA_%s_StateLoad' % f.name, la, fl)
            if r1 != 0 or r2 != 0:
                bad = 'save returns %r, load %r' % (r1, r2)
            for who, s_ in () if bad else (('loaded', g.state(la)), ('original', st)):
                for i, (r, v) in zip(range(n0, N), [g.step(f, s_, [tm.fc(x[i]) for x in cols]) for i in range(n0, N)]):
                    rows.append(('%s code of bar %d' % (who, i), r, ref[i - n0][0], 'int'))
                    rows += [('%s %s[%d]' % (who, nm, i), x, y, ty) for x, y, (nm, ty) in zip(v, ref[i - n0][1], f.outs) if not (x is UNDEF and y is UNDEF)]
        except tm.Modulus as m:
            mod = c21.lcm(mod, m.args[0])
            if mod > 1 << 30:
                raise
            continue
        except PathAbort as e:
            bad = 'no normal return (%s)' % (E.errors[-1][0] if E.errors else e)
        break
    F0 = []
    for msg, cond in E.errors[ne:][:3]:
        v = 'unsat'
        for mode in ('UF', 'REAL'):
            tr = smt.Tr(mode)
            F = [tr.diagram(cond if mode == 'UF' else c21.norm_of(cond))]
            v = smt.solve(F + c21.side(lo, hi, mod), 8000)
            if v == 'unsat':
                break
        if bad is None:
            R.queries.append(('saved after %d + K bars, memory: %s' % (n0, msg[:60]), mode, v))
        if v == 'sat':
            bad, F0 = bad or msg, F
            break
        if v != 'unsat':
            R.status = 'undecided'; R.note = 'memory error: ' + msg

    def cand_(text, F):
        m = c21.smallest(F, lo, hi, mod)
        k = m.eval(z3.BitVec('K', 64), model_completion=True).as_long() if m is not None else c21.kk(hi >> 1, mod)
        R.cands.append({'site': task['key'], 'text': 'saved after %d bars: %s' % (n0 + k, text), 'scens': [dict(scen, K=k, build='asan'), dict(scen, K=k)]})
    if bad:
        R.queries.append(('saved after %d + K bars' % n0, 'BOOL', 'sat'))
        cand_(bad, F0)
    else:
        eq = decide.Eq(names_of(f), N, extra=lambda tr: c21.side(lo, hi, mod))
        same = [r for r in rows if tm.same(r[1], r[2])]
        for l, x, y, ty in rows:
            if tm.same(x, y): continue
            v, found = ('sat', None) if x is UNDEF or y is UNDEF else eq.decide(l, x, y, ty, R)
            if v == 'unsat': continue
            if v in ('sat', 'narrow') or found:
                R.queries.append((l, 'K', 'sat'))
                cand_('%s differs from the stream that was not saved' % l, found[2] if found else [])
                break
            R.status = 'undecided'; R.note = '%s: %s' % (l, v)
        R.reached += len(rows)
        eq.same_batch(same, R)
    tm.set_base(None, None, None)
    finish(task, E, R)


def replay_long(s):
    from ..native import setup, Stream, File
    from . import c21
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins, n0, N, K = s['ins'], s['n0'], s['N'], s['K']
    sts = [Stream(f, c), Stream(f, c)]
    for st in sts:
        for i in range(n0): st.step([x[i] for x in ins])
        c21.bump(st, s['counters'], K)
    fl = File()
    r = sts[1].save(fl)
    fl.rewind()
    L = Stream(f, c, load=fl)
    if r or L.ret:
        return True, 'save returns %d, load %d' % (r, L.ret)
    for i in range(n0, N):
        a, b, d = [st.step([x[i] for x in ins]) for st in (sts[0], sts[1], L)]
        for who, y in (('original', b), ('loaded', d)):
            if a[0] != y[0] or a[0] == 0 and not all(eqv(p, q) for p, q in zip(a[1], y[1])):
                return True, '%s stream (saved after %d bars), next bars: %r, uninterrupted stream %r' % (who, n0 + K, y, a)
    return False, 'the reloaded stream agrees'


def save_points(lb, tier, name):
    if tier != 'quick' and name not in SLOW:
        return list(range(0, lb + 3))
    if name in SLOW:
        return [0, lb, lb + 1]
    return sorted({0, 1, lb, lb + 2})


def feed(h, f, st, ins, a, b):
    out = []
    for i in range(a, b):
        out.append(h.step(f, st, at(h, ins, i)))
    return out


def run(task, ctx, R):
    if task.get('long'):
        return run_long(task, ctx, R)
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    pts = save_points(lb, ctx.tier, f.name)
    N = max(pts) + 2
    ins = series(h, f, c, N, sym=2)
    jns = series(h, f, c, N, tag='second_', sym=2)
    R.bounds = '%s, saved after %s bars, %d bars in all' % (cfg, pts, N)
    eq = decide.Eq(names_of(f), N)
    # uninterrupted run
    h0 = h.fork()
    r, hd = h0.init_state(f, c)
    if r != 0:
        raise PathAbort('init returned %r' % r)
    ref = feed(h0, f, h0.state(hd), ins, 0, N)
    h0 = h.fork()
    r, hd = h0.init_state(f, c)
    ref2 = feed(h0, f, h0.state(hd), jns, 0, N)
    base = h.fork()
    r, hd = base.init_state(f, c)
    at_k = {}
    for k in range(max(pts) + 1):
        if k in pts:
            at_k[k] = base.fork()
        if k < max(pts):
            base.step(f, base.state(hd), at(base, ins, k))
    for k in pts:
        scen = {'f': f.name, 'cfg': cfg.json(), 'n': N, 'k': k, 'ins': plain_inputs(f, c, N), 'jns': plain_inputs(f, c, N, 7)}
        g = at_k[k]
        k2 = (k + 1) // 2          # the second stream is at another moment
        bad = None; same = []; diff = []
        ne = len(E.errors)
        try:
            st = g.state(hd)
            r, hb = g.init_state(f, c)
            sb = g.state(hb)
            feed(g, f, sb, jns, 0, k2)
            fl = E.new_file(g.S)
            r1 = g.call('TA_%s_StateSave' % f.name, st, fl)
            mid = E.file_pos(g.S, fl)
            r2 = g.call('TA_%s_StateSave' % f.name, sb, fl)
            if r1 != 0 or r2 != 0:
                bad = 'save returned %r, %r' % (r1, r2)
            else:
                E.file_rewind(g.S, fl)
                la = g.ptrvar('loaded', (0, 0)); lb_ = g.ptrvar('loaded2', (0, 0))
                r3 = g.call('TA_%s_StateLoad' % f.name, la, fl)
                if r3 == 0 and not tm.same(E.file_pos(g.S, fl), mid):
                    bad = 'load consumed %r bytes, save wrote %r' % (E.file_pos(g.S, fl), mid)
                r4 = g.call('TA_%s_StateLoad' % f.name, lb_, fl) if not bad else 0
                if r3 != 0 or r4 != 0:
                    bad = 'load returned %r, %r' % (r3, r4)
            if not bad:
                for who, s, src, a, want in (('loaded', g.state(la), ins, k, ref), ('second loaded', g.state(lb_), jns, k2, ref2),
                                             ('original', st, ins, k, ref), ('second original', sb, jns, k2, ref2)):
                    for i, (rr, v) in zip(range(a, N), feed(g, f, s, src, a, N)):
                        if rr != want[i][0]:
                            bad = '%s stream: bar %d returned %r, uninterrupted stream %r' % (who, i, rr, want[i][0]); break
                        if rr == 0:
                            for x, y, (nm, ty) in zip(v, want[i][1], f.outs):
                                if x is UNDEF and y is UNDEF: continue
                                (same if tm.same(x, y) else diff).append(('saved@%d %s %s[%d]' % (k, who, nm, i), x, y, ty))
                    if bad:
                        break
                if not bad and not diff:
                    # everything is released again
                    for hh in (la, lb_, hb, hd):
                        g.call('TA_%s_StateFree' % f.name, hh)
        except PathAbort as e:
            bad = 'saved after %d bars: no normal return (%s)' % (k, E.errors[-1][0] if E.errors else e)
        if not bad and len(E.errors) > ne:
            bad = 'saved after %d bars: %s' % (k, E.errors[ne][0])
        if bad:
            R.queries.append(('saved@%d' % k, 'BOOL', 'sat'))
            R.cands.append({'site': task['key'], 'text': bad, 'scens': [dict(scen, build='asan'), scen]})
            break
        eq.same_batch(same, R)
        R.reached += len(same) + len(diff)
        for l, x, y, t in diff:
            if x is UNDEF or y is UNDEF:
                v, found = 'sat', None
                R.queries.append((l, 'UNDEF', 'sat'))
            else:
                v, found = eq.decide(l, x, y, t, R)
            if v == 'sat':
                R.cands.append({'site': task['key'], 'text': '%s: outputs differ from the uninterrupted stream' % l,
                                'scens': [scen] + ([dict(scen, ins=patch(h, ins, m)) for m in eq.models(found)] if found else [])})
                break
            elif v != 'unsat':
                R.status = 'undecided'
        if R.cands:
            break
    finish(task, E, R)


def replay(s):
    if 'counters' in s:
        return replay_long(s)
    from ..native import setup, Stream, File
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins, jns, N, k = s['ins'], s['jns'], s['n'], s['k']
    k2 = (k + 1) // 2
    def go(st, src, a, b):
        return [st.step([x[i] for x in src]) for i in range(a, b)]
    ref = go(Stream(f, c), ins, 0, N); ref2 = go(Stream(f, c), jns, 0, N)
    A = Stream(f, c); go(A, ins, 0, k)
    B = Stream(f, c); go(B, jns, 0, k2)
    fl = File()
    r = (A.save(fl), B.save(fl))
    if r != (0, 0):
        return True, 'save returned %r' % (r,)
    fl.rewind()
    LA = Stream(f, c, load=fl); LB = Stream(f, c, load=fl)
    if LA.ret or LB.ret:
        return True, 'load returned %d, %d' % (LA.ret, LB.ret)
    for who, st, src, a, want in (('loaded', LA, ins, k, ref), ('second loaded', LB, jns, k2, ref2), ('original', A, ins, k, ref), ('second original', B, jns, k2, ref2)):
        for i, (rr, v) in zip(range(a, N), go(st, src, a, N)):
            if rr != want[i][0] or rr == 0 and not all(eqv(x, y) for x, y in zip(v, want[i][1])):
                return True, '%s stream (saved after %d bars), bar %d: %d %r, uninterrupted stream %r' % (who, k, i, rr, v, want[i])
    for st in (A, B, LA, LB):
        st.free()
    return False, 'the reloaded streams agree'
