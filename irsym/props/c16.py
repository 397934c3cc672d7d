"""C16: running out of memory is reported and harmless."""
from .common import *
from ..meta import Cfg, base

QUICK_BUDGET = 450
BOUNDS = ('Per function and listed option configuration (plus periods beyond the static buffers): every allocation inside stream creation, stream load, a per-bar call, a batch call '
          'in either precision, library initialisation and the descriptive interface fails or succeeds under its own free variable, so every combination of failures is covered; '
          'batch: start 0, end lookback+1 and start=end=lookback; symbolic inputs.')
OUTSIDE = 'Longer ranges (the number of allocations does not depend on the range beyond the cases run).'
ASSUME = ['input values are not NaN', 'fread/fwrite transfer all bytes']


def big_cfgs(f):
    if f.name == 'CCI':
        return [Cfg('p31', base(f, [31]))]
    if f.name == 'MFI':
        return [Cfg('p51', base(f, [51]))]
    if f.name == 'MA':
        return [Cfg('p3-MAMA', base(f, [3], ma=7))]
    return []


def tasks(ctx):
    out = state_tasks(ctx, 60 if ctx.tier == 'quick' else 200, nosym=('SAREXT',), nobig=('STOCH', 'STOCHF'))
    have = {t['f'] for t in out}
    for n, f in ctx.api.items():
        if n not in have:
            for c in configs(f):
                out.append({'key': '%s/%s' % (n, c.name), 'f': n, 'cfg': c, 'timeout': 60, 'w': 1})
        for c in big_cfgs(f):
            out.append({'key': '%s/%s' % (n, c.name), 'f': n, 'cfg': c, 'timeout': 60, 'w': 1, 'big': True})
    if ctx.tier == 'quick':
        out = [t for t in out if not (t['f'].startswith('CDL') and t['cfg'].name != 'cdl-small')]
    for k in ('initialize', 'holder', 'grouptable', 'functable'):
        out.append({'key': 'library/' + k, 'f': None, 'kind': k, 'timeout': 60, 'w': 1})
    return out


def any_fail(atoms):
    b = False
    for a, pc in atoms:
        b = bor(b, band(a, pc))
    return b


def failing(atoms, tr, m):
    """positions, along the path of the model, of the requests that fail"""
    import z3
    out = []; k = 0
    for a, pc in atoms:
        on = pc is True or z3.is_true(m.eval(tr.diagram(pc), model_completion=True))
        if on:
            if z3.is_true(m.eval(tr.diagram(a), model_completion=True)):
                out.append(k)
            k += 1
    return out


class Faulty:
    """obligations of one call made with failing requests"""

    def __init__(self, site, E, R, scen, code, ins=None, names=(), n=0, hins=None, h=None):
        self.site = site; self.E = E; self.R = R; self.scen = scen; self.code = code
        self.names = names; self.n = n; self.h = h; self.hins = hins
        self.bad = False

    def atoms(self):
        return self.E.alloc_atoms if self.code == ta.ALLOC_ERR else self.E.io_atoms

    def scens(self, tr, m):
        n = len(self.atoms())
        out = []
        if tr is not None and m is not None:
            fl = failing(self.atoms(), tr, m)
            s = dict(self.scen, fail=fl)
            out.append(s)
            if self.h is not None:
                out.append(dict(s, ins=patch(self.h, self.hins, decide.inputs(tr, m, self.names, self.n))))
        out += [dict(self.scen, fail=[k]) for k in range(min(n, 24))]
        out.append(dict(self.scen, fail=[]))
        return out + [dict(s, build='faultasan') for s in out[:6]]

    def check(self, text, cond):
        if self.bad:
            return
        v, tr, m = decide.assert_unsat(text[:70], cond, self.R, 'BOOL', 6000, self.names, self.n)
        if v == 'sat':
            self.bad = True
            self.R.cands.append({'site': self.site, 'text': text, 'scens': self.scens(tr, m)})
        elif v != 'unsat':
            self.R.status = 'undecided'; self.R.note = '%s: %s' % (text[:80], v)

    def errors(self, ne):
        for msg, cond in self.E.errors[ne:][:4]:
            self.check('after a failed request: ' + msg, cond)

    def returns(self, ret, what, pc=True):
        f = any_fail(self.atoms())
        code = self.code
        ok = tm.map1(lambda x: x == code, ret)
        self.check('%s: a request fails and the code is not %d' % (what, code), band(band(f, pc), bnot(ok)))
        z = tm.map1(lambda x: x == 0, ret)
        self.check('%s: no request fails and the code is not success' % what, band(band(bnot(f), pc), bnot(z)))


def released(fy, g, base, what):
    for nm, a in g.live_heap():
        if nm in base:
            continue
        fy.check('%s: %s is lost' % (what, nm), a)


def run(task, ctx, R):
    if task['f'] is None:
        return run_lib(task, ctx, R)
    f = ctx.api[task['f']]; cfg = task['cfg']; c = cfg.opt
    tm.set_nonan(True)
    h = mkh(ctx, f); E = h.E
    cfg.apply(h)
    lb = h.lookback(f, c)
    N = lb + 2
    part = SLOW2 | {'MA'} if cfg.name.endswith('MAMA') else None
    ins = series(h, f, c, N, sym=1, part=part)
    R.bounds = '%s, %d bars, all failure combinations' % (cfg, N)
    pl = {'ins': plain_inputs(f, c, N), 'f': f.name, 'cfg': cfg.json(), 'n': N, 'lb': lb, 'build': 'fault'}
    key = task['key']
    keep = {o for o, _ in h.live_heap()}

    def fresh():
        E.alloc_atoms = []; E.alloc_fault = True
        return len(E.errors)

    if f.has_state and not task.get('big'):
        # creation
        free = 'TA_%s_StateFree' % f.name
        fy = Faulty(key + ':init', E, R, dict(pl, mode='init'), ta.ALLOC_ERR)
        g = h.fork()
        ne = fresh()
        try:
            r, hd = g.init_state(f, c)
            E.alloc_fault = False
            fy.returns(r, 'stream creation')
            fy.errors(ne)
            if not fy.bad:
                r2 = g.call(free, hd)
                fy.errors(ne)
                fy.check('release after a failed creation does not succeed', bnot(tm.map1(lambda x: x == 0, r2)))
                released(fy, g, keep, 'creation and release')
        except PathAbort as e:
            fy.errors(ne)
            if not fy.bad:
                fy.check('no normal return: %s' % e, True)
        E.alloc_fault = False
        # per-bar calls and load
        g = h.fork()
        r, hd = g.init_state(f, c)
        if r == 0:
            fy = Faulty(key + ':step', E, R, dict(pl, mode='step'), ta.ALLOC_ERR)
            ne = fresh()
            try:
                for i in range(min(N, lb + 1) if not slow(f, c) else 2):
                    r, v = g.step(f, g.state(hd), at(g, ins, i))
                    fy.check('bar %d: a request fails and the code is not %d' % (i, ta.ALLOC_ERR),
                             band(any_fail(E.alloc_atoms), bnot(tm.map1(lambda x: x == ta.ALLOC_ERR, r))))
                    fy.errors(ne)
                    if E.alloc_atoms:       # stop at the first failing bar: continue without failures
                        g.S.pc = band(g.S.pc, bnot(any_fail(E.alloc_atoms)))
                        E.alloc_atoms = []
            except PathAbort as e:
                fy.errors(ne)
                if not fy.bad:
                    fy.check('no normal return: %s' % e, True)
            E.alloc_fault = False
            fy = Faulty(key + ':load', E, R, dict(pl, mode='load', k=min(N, lb + 1) if not slow(f, c) else 2), ta.ALLOC_ERR)
            fl = E.new_file(g.S)
            r1 = g.call('TA_%s_StateSave' % f.name, g.state(hd), fl)
            E.file_rewind(g.S, fl)
            la = g.ptrvar('loaded', (0, 0))
            k0 = {o for o, _ in g.live_heap()}
            ne = fresh()
            if r1 == 0:
                try:
                    r = g.call('TA_%s_StateLoad' % f.name, la, fl)
                    E.alloc_fault = False
                    fy.returns(r, 'load')
                    fy.errors(ne)
                    if not fy.bad:
                        r2 = g.call(free, la)
                        fy.errors(ne)
                        fy.check('release after a failed load does not succeed', bnot(tm.map1(lambda x: x == 0, r2)))
                        released(fy, g, k0, 'load and release')
                except PathAbort as e:
                    fy.errors(ne)
                    if not fy.bad:
                        fy.check('no normal return: %s' % e, True)
                E.alloc_fault = False
    # batch
    single = ctx.lk.index.get('TA_S_' + f.name)
    for prefix, tag in (('TA_', 'batch'),) + ((('TA_S_', 'single'),) if single else ()):
        fy = None
        for s, e in ((0, N - 1), (lb, lb)):
            g = h.fork()
            fy = Faulty(key + ':' + tag, E, R, dict(pl, mode=tag, s=s, e=e), ta.ALLOC_ERR, names=names_of(f), n=N, h=h, hins=ins)
            a = ins
            if tag == 'single':
                a = [g.arr(nm, N, sort='f32', vals=[tm.var('s_%s_%d' % (nm, i), 'f32') if getattr(g.get(p, i), 'op', None) != 'const' else tm.fc(g.get(p, i).val, 'f32') for i in range(N)])
                     if ty == 'double' or ty == 'float' else p for p, (nm, ty) in zip(ins, f.ins)]
                fy.h = None
            ne = fresh()
            try:
                r, b, n, outs = g.batch(f, c, a, s, e, max(1, e - max(s, 0) + 1), prefix=prefix)
                E.alloc_fault = False
                fy.returns(r, tag)
                fy.errors(ne)
                released(fy, g, keep, tag)
                R.reached += 1
            except PathAbort as ex:
                fy.errors(ne)
                if not fy.bad:
                    fy.check('no normal return: %s' % ex, True)
            E.alloc_fault = False
            if fy.bad:
                break
    finish(task, E, R)


def run_lib(task, ctx, R):
    from ..meta import cstr
    h = ta.H(ctx.lk, init=task['kind'] != 'initialize'); E = h.E
    kind = task['kind']
    fy = Faulty(task['key'], E, R, {'mode': kind, 'build': 'fault'}, ta.ALLOC_ERR)
    keep = {o for o, _ in h.live_heap()}
    E.alloc_fault = kind != 'holder'
    try:
        if kind == 'initialize':
            r = h.call('TA_Initialize')
            E.alloc_fault = False
            fy.returns(r, 'TA_Initialize')
            r = h.call('TA_Shutdown')
            released(fy, h, keep, 'initialize and shutdown')
        elif kind in ('grouptable', 'functable'):
            p = h.ptrvar('table', (0, 0))
            nm = 'TA_GroupTable' if kind == 'grouptable' else 'TA_FuncTable'
            args = [p] if kind == 'grouptable' else [cstr(h, 'Math Transform'), p]
            r = h.call(nm + 'Alloc', *args)
            E.alloc_fault = False
            fy.returns(r, nm + 'Alloc')
            fy.errors(0)
            f = any_fail(E.alloc_atoms)
            h.S.pc = band(h.S.pc, bnot(f))
            if h.S.pc is not False:
                r = h.call(nm + 'Free', h.get(p, 0, 'ptr'))
                h.S.pc = True
            released(fy, h, keep, nm)
        else:
            for n in ctx.api:
                g = h.fork()
                E.alloc_atoms = []
                ph = g.ptrvar('handle', (0, 0)); pp = g.ptrvar('params', (0, 0))
                assert g.call('TA_GetFuncHandle', cstr(g, n), ph) == 0
                E.alloc_fault = True
                fy.scen = {'mode': kind, 'build': 'fault', 'name': n}
                ne = len(E.errors)
                r = g.call('TA_ParamHolderAlloc', g.get(ph, 0, 'ptr'), pp)
                E.alloc_fault = False
                fy.returns(r, 'TA_ParamHolderAlloc(%s)' % n)
                fy.errors(ne)
                g.S.pc = band(g.S.pc, bnot(any_fail(E.alloc_atoms)))
                g.call('TA_ParamHolderFree', g.get(pp, 0, 'ptr'))
                g.S.pc = True
                released(fy, g, keep, 'TA_ParamHolder(%s)' % n)
                if fy.bad:
                    break
    except PathAbort as e:
        fy.errors(0)
        if not fy.bad:
            fy.check('no normal return: %s' % e, True)
    finish(task, E, R)


def arm(L, fail):
    L.irsym_reset()
    for k in fail:
        L.irsym_alloc_fail(k)
    L.irsym_arm(1)


def verdict(L, r, live0, what, allow=()):
    n = L.irsym_nalloc()
    return n, r


def replay(s):
    from ..native import setup, Stream, File, lib, batch
    import ctypes as C
    L = lib()
    L.irsym_live.restype = C.c_int
    fail = s['fail']
    mode = s['mode']

    def hit():
        return any(k < L.irsym_nalloc() for k in fail)

    def judge(r, what):
        if hit() and r != ta.ALLOC_ERR:
            return 'memory request %s fails in %s: returned %d' % (fail, what, r)
        if not hit() and r != 0:
            return '%s returned %d without a failure' % (what, r)
    if mode in ('initialize', 'holder', 'grouptable', 'functable'):
        h = C.c_void_p(0); p = C.c_void_p(0)
        if mode == 'initialize':
            L.TA_Shutdown()
            live = L.irsym_live()
            arm(L, fail)
            r = L.TA_Initialize(); L.irsym_arm(0)
            t = judge(r, 'TA_Initialize')
            if t: return True, t
            L.TA_Shutdown()
        elif mode == 'holder':
            L.TA_GetFuncHandle(s['name'].encode(), C.byref(h))
            live = L.irsym_live()
            arm(L, fail)
            r = L.TA_ParamHolderAlloc(h, C.byref(p)); L.irsym_arm(0)
            t = judge(r, 'TA_ParamHolderAlloc')
            if t: return True, t
            if r == 0: L.TA_ParamHolderFree(p)
        else:
            live = L.irsym_live()
            arm(L, fail)
            r = L.TA_GroupTableAlloc(C.byref(p)) if mode == 'grouptable' else L.TA_FuncTableAlloc(b'Math Transform', C.byref(p))
            L.irsym_arm(0)
            t = judge(r, mode)
            if t: return True, t
            if r == 0: (L.TA_GroupTableFree if mode == 'grouptable' else L.TA_FuncTableFree)(p)
        n = L.irsym_live() - live
        return n != 0, '%d memory blocks lost' % n
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    ins, N = s['ins'], s['n']
    if mode == 'init':
        live = L.irsym_live()
        arm(L, fail)
        A = Stream(f, c); L.irsym_arm(0)
        t = judge(A.ret, 'stream creation')
        if t: return True, t
        r = A.free()
        if r: return True, 'release after %s: %d' % (A.ret, r)
    elif mode == 'step':
        A = Stream(f, c)
        for i in range(N):
            arm(L, fail)
            r, v = A.step([x[i] for x in ins]); L.irsym_arm(0)
            if hit():
                return r != ta.ALLOC_ERR, 'bar %d with a failed request returned %d' % (i, r)
        return False, 'no request'
    elif mode == 'load':
        A = Stream(f, c)
        for i in range(s['k']):
            A.step([x[i] for x in ins])
        fl = File()
        if A.save(fl): return False, 'save failed'
        fl.rewind()
        live = L.irsym_live()
        arm(L, fail)
        B = Stream(f, c, load=fl); L.irsym_arm(0)
        t = judge(B.ret, 'load')
        if t: return True, t
        r = B.free()
        if r: return True, 'release after load %s: %d' % (B.ret, r)
    else:
        live = L.irsym_live()
        arm(L, fail)
        r, b, n, o = batch(f, c, ins, s['s'], s['e'], single=mode == 'single'); L.irsym_arm(0)
        t = judge(r, mode)
        if t: return True, t
    n = L.irsym_live() - live
    return n != 0, '%d memory blocks lost (failing requests %s)' % (n, fail)
