"""C18: computations have no hidden state: the frame of every computation call."""
from .common import *

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration: lookback, batch calls in both precisions over a symbolic series of lookback+3 bars, and a stream created, fed with every bar, saved, loaded and released. '
          'After each call every cell of every object of the library (global and static variables, tables) and of the input arrays is compared with its contents before the call; with memory-safe calls (C05, C06) and every new block holding unknown contents, '
          'a call that leaves all shared data unchanged cannot influence later calls.')
OUTSIDE = 'Longer series and larger periods; the C library; floating-point environment; calls from several threads at once.'
ASSUME = ['input values are not NaN', 'malloc/calloc succeed']


def tasks(ctx):
    q = ctx.tier == 'quick'
    return state_tasks(ctx, 45 if q else 200, (lambda f, c: not (f.name in SLOW2 and c.name != 'plain')) if q else None, nosym=('SAREXT',))


def changed(E, A, B):
    """(object name, offset, condition) of library data that differs between two memories"""
    out = []
    for i, o in B.mem.items():
        if o.kind not in ('global', 'const', 'in', 'shared'):
            continue
        p = A.mem.get(i) or E.gget(i)
        if p is o or p is None:
            continue
        for k in set(o.cells) | set(p.cells):
            x, y = p.cells.get(k), o.cells.get(k)
            if x is None or y is None:
                z = (x or y)
                # never written before: compare with the default contents
                if x is None and o.dflt == 'zero' and (y[1] == 0 or y[1] == (0, 0) or isinstance(y[1], tm.T) and y[1].op == 'const' and y[1].val == 0):
                    continue
                out.append((o.name, k, B.pc))
            elif x[0] != y[0]:
                out.append((o.name, k, B.pc))
            elif not tm.same(x[1], y[1]):
                out.append((o.name, k, band(B.pc, map2ne(x[1], y[1]))))
    return [x for x in out if x[2] is not False]


def run(task, ctx, R):
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h0 = mkh(ctx, f); E = h0.E
    cfg.apply(h0)
    lb = h0.lookback(f, c)
    N = lb + 3
    if c.far:
        N = lb + FAR
    R.bounds = '%s, %d bars' % (cfg, N)
    pl = plain_inputs(f, c, N)
    ins = series(h0, f, c, N, sym=2)
    sins = [h0.arr(nm, N, sort='f32', vals=[tm.fc(x, 'f32') for x in pl[k]] if nm == 'inPeriods' or f.name in SLOW2 else None) for k, (nm, _) in enumerate(f.ins)]
    for p in ins + sins:
        h0.S.mem[p[0]].kind = 'shared'     # writable for the call, compared afterwards
    site = task['key']
    scen = {'f': f.name, 'cfg': cfg.json(), 'n': N, 'ins': pl, 'build': 'now'}

    def frame(g, what, sc):
        ch = changed(E, h0.S, g.S)
        bad = False
        for nm, k, cond in ch[:6]:
            v, tr, m = decide.assert_unsat('%s leaves %s+%s unchanged' % (what, nm, k), cond, R, 'BOOL', 4000, names_of(f), N)
            if v == 'sat':
                a = patch(h0, ins, decide.inputs(tr, m, names_of(f), N)) if tr is not None and m is not None else pl
                R.cands.append({'site': site, 'text': '%s changes %s+%s' % (what, nm, k), 'scens': [dict(sc, ins=a), sc]})
                return True
            if v != 'unsat':
                R.status = 'undecided'; R.note = '%s: %s' % (what, v)
        if not ch:
            decide.assert_unsat('%s leaves all shared data unchanged' % what, False, R)
        R.reached += 1
        return bad
    try:
        g = h0.fork(); g.lookback(f, c)
        if frame(g, 'lookback', dict(scen, mode='lookback')):
            return finish(task, E, R)
        last = N - 1
        for pre, a in (('TA_', ins), ('TA_S_', sins)):
            for s, e in [(0, last), (lb + 1, last)] if not slow(f, c) else [(0, last)] if pre == 'TA_' else []:
                g = h0.fork(); g.batch(f, c, a, s, e, e - s + 1, prefix=pre)
                if frame(g, '%s %d..%d' % (pre + f.name, s, e), dict(scen, mode='batch', s=s, e=e, single=pre != 'TA_')):
                    return finish(task, E, R)
        g = h0.fork(); r, hd = g.init_state(f, c)
        st = g.state(hd)
        if frame(g, 'stream creation', dict(scen, mode='stream')):
            return finish(task, E, R)
        for i in range(N):
            g.step(f, st, at(g, ins, i))
        if frame(g, 'streaming', dict(scen, mode='stream')):
            return finish(task, E, R)
        fl = E.new_file(g.S)
        r = g.call('TA_%s_StateSave' % f.name, st, fl)
        E.file_rewind(g.S, fl)
        hd2 = g.ptrvar('handle', (0, 0))
        r2 = g.call('TA_%s_StateLoad' % f.name, hd2, fl)
        if r == 0 and r2 == 0:
            g.call('TA_%s_StateFree' % f.name, hd2)
        g.call('TA_%s_StateFree' % f.name, hd)
        frame(g, 'save, load and release', dict(scen, mode='stream'))
    except PathAbort as e:
        # memory errors are the subject of C05 and C06
        R.status = 'undecided'; R.note = 'no normal return: %s' % (E.errors[-1][0] if E.errors else e)
    finish(task, E, R)


def segments(path):
    """writable data segments of the replay library in this process"""
    import ctypes as C, os
    out = []
    prev = None
    for l in open('/proc/self/maps'):
        p = l.split()
        a, b = (int(x, 16) for x in p[0].split('-'))
        if len(p) > 5 and os.path.realpath(p[5]) == os.path.realpath(path):
            if 'w' in p[1]: out.append((a, b))
            prev = b
        elif prev == a and len(p) <= 5 and 'w' in p[1]:      # .bss
            out.append((a, b)); prev = None
        else:
            prev = None
    return [C.string_at(a, b - a) for a, b in out]


def replay(s):
    import os, ctypes as C
    from ..native import setup, lib, Stream, optargs, File
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    so = os.environ['VERIF_SO']
    x = segments(so)
    x = segments(so)
    if s['mode'] == 'lookback':
        getattr(lib(), 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    elif s['mode'] == 'batch':
        ty = C.c_float if s['single'] else C.c_double
        arrs = [(ty * len(v))(*v) for v in s['ins']]
        was = [bytes(a) for a in arrs]
        from ..native import CT
        outs = [(CT[t] * (s['e'] - s['s'] + 1))() for _, t in f.outs]
        getattr(lib(), ('TA_S_' if s['single'] else 'TA_') + f.name)(C.c_int(s['s']), C.c_int(s['e']), *arrs, *optargs(f, c), C.byref(C.c_int()), C.byref(C.c_int()), *outs)
        if [bytes(a) for a in arrs] != was:
            return True, 'the call changed its input arrays'
    else:
        st = Stream(f, c)
        for i in range(s['n']):
            st.step([v[i] for v in s['ins']])
        fl = File(); st.save(fl); fl.rewind()
        st2 = Stream(f, c, load=fl)
        if st2.ret == 0: st2.free()
        st.free()
    y = segments(so)
    for a, b in zip(x, y):
        if a != b:
            k = [i for i in range(len(a)) if a[i] != b[i]]
            return True, '%d bytes of the library\'s own data changed' % len(k)
    return False, 'no shared data changed'
