"""C12: the descriptive (abstract) call interface gives what the direct calls give."""
from .common import *
from ..meta import func_info, info_of, cstr, rstr, rd, PRICE, base, configs
from ..terms import icmp, ite, fcmp, T, Node
from .c08 import ask

QUICK_BUDGET = 450
BOUNDS = ('Per indicator: option values, indices, input values, addresses of arrays, streams and files and the codes and counts returned by the direct entry points are all symbolic: the call made by the frame is compared argument by argument with the direct call, '
          'for batch, lookback, stream creation, step, block, save, load and release; parameters set in both orders, set twice, and left unset; a second holder of the same indicator in use at the same time. '
          'Refusals: every 32-bit parameter index, every magic number, every subset of missing parameters and price components. Lookup: every name of up to 24 bytes over all byte values, every group name of up to 32 bytes.')
OUTSIDE = 'What the direct calls compute (the other properties); names longer than 24 bytes; holders released or altered by the caller.'
ASSUME = ['malloc succeeds', 'a direct entry point is reached through its published name (a frame that does not call it is compared by value on short symbolic series instead)']
LEVEL = 'model_checking'
IN_MISS, OUT_MISS, INV_HANDLE, INV_HOLDER, INV_TYPE, NOT_FOUND, GROUP_NF = 10, 11, 6, 7, 8, 5, 4


def tasks(ctx):
    out = []
    to = 60 if ctx.tier == 'quick' else 200
    for n, f in ctx.api.items():
        out.append({'key': n + '/forward', 'f': n, 'kind': 'forward', 'timeout': to, 'w': 1})
        out.append({'key': n + '/refuse', 'f': n, 'kind': 'refuse', 'timeout': to, 'w': 1})
    for L in 'CMHSTABDPIRLWUNOVEFGJKQXYZ':
        out.append({'key': 'lookup/' + L, 'f': None, 'kind': 'lookup', 'L': L, 'timeout': to * 2, 'w': 0})
    out.append({'key': 'lookup/other', 'f': None, 'kind': 'lookup', 'L': '', 'timeout': to * 2, 'w': 0})
    out.append({'key': 'groups', 'f': None, 'kind': 'groups', 'timeout': to, 'w': 0})
    out.append({'key': 'foreach', 'f': None, 'kind': 'foreach', 'timeout': to, 'w': 0})
    out.sort(key=lambda t: t['w'])
    return out


def run(task, ctx, R):
    tm.set_nonan(True)
    h = ta.H(ctx.lk)
    f = ctx.api.get(task['f']) if task['f'] else None
    {'forward': t_forward, 'refuse': t_refuse, 'lookup': t_lookup, 'groups': t_groups, 'foreach': t_foreach}[task['kind']](task, ctx, R, h, f)
    R.encoded |= set(h.E.encoded); R.steps = h.E.steps; R.states = h.E.nstates


def differ(a, b):
    """condition: two argument values differ"""
    if a is b or tm.same(a, b):
        return False
    if a is UNDEF or b is UNDEF:
        return True
    isp = lambda v: type(v) is tuple or type(v) is Node and any(type(x) is tuple for x in tm.leafset(v))
    if isp(a) or isp(b):
        return map2ne(a, b)
    srt = [x.sort for x in (a, b) if type(x) is T]
    if 'f64' in srt or 'f32' in srt:
        return fcmp('une', a, b) if type(a) is not int and type(b) is not int else True
    if type(a) is Node and any(type(x) is T and x.sort == 'f64' for x in tm.leafset(a)):
        return fcmp('une', a, b)
    return icmp('ne', a, b, 32)


class Rec:
    """recording stand-in for a direct entry point"""

    def __init__(self, h, name, out=None):
        self.calls = []; self.ret = tm.var('code_of_' + name, 'i32'); self.out = out
        h.E.stubs[name] = self

    def __call__(self, E, S, *args):
        self.calls.append((S.pc, args))
        if self.out:
            self.out(E, S, args)
        return self.ret


PROTO = {'open': 'inOpen', 'high': 'inHigh', 'low': 'inLow', 'close': 'inClose', 'volume': 'inVolume', 'openinterest': 'inOpenInterest'}


def layout(f, info):
    """published input list -> [(kind, index, [(component, prototype input)])], None when it does not fit the prototype"""
    out = []
    left = [nm for nm, _ in f.ins]
    for k, i in enumerate(info['ins']):
        if i['type'] == 'price':
            comp = [(w, PROTO.get(w)) for w, b in PRICE if i['flags'] & b]
            if not all(p in left for _, p in comp):
                return None
            out.append(('price', k, comp))
            for _, p in comp: left.remove(p)
        else:
            if not left:
                return None
            nm = i['name'] if i['name'] in left else left[0]
            left.remove(nm)
            out.append((i['type'], k, [(None, nm)]))
    return None if left else out


def newholder(g, info):
    ph = g.ptrvar('new holder', (0, 0))
    r = g.call('TA_ParamHolderAlloc', info['handle'], ph)
    return r, g.get(ph, 0, 'ptr')


def set_in(g, hd, lay, arrs):
    """list of setter calls [(name, args)] for the inputs"""
    out = []
    for kind, k, comp in lay:
        if kind == 'price':
            d = {w: arrs[p] for w, p in comp}
            out.append(('TA_SetInputParamPricePtr', [hd, k] + [d.get(w, (0, 0)) for w, _ in PRICE[:6]]))
        else:
            out.append(('TA_SetInputParam%sPtr' % ('Real' if kind == 'real' else 'Integer'), [hd, k, arrs[comp[0][1]]]))
    return out


def set_opt(g, hd, f, vals_):
    return [('TA_SetOptInputParam' + ('Real' if o.kind == 'real' else 'Integer'), [hd, k, v]) for k, (o, v) in enumerate(zip(f.opts, vals_))]


def set_out(g, hd, f, outs):
    return [('TA_SetOutputParam%sPtr' % ('Real' if t == 'double' else 'Integer'), [hd, k, p]) for k, ((_, t), p) in enumerate(zip(f.outs, outs))]


def scens(f, extra=None):
    out = []
    for c in ([extra] if extra else []) + [c.opt for c in configs(f)][:4]:
        out.append({'kind': 'same', 'f': f.name, 'opt': c})
    return out


def by_value(ctx, R, f, info, lay):
    """concrete inputs on which the frame's result differs from the direct one, from the solver"""
    out = []
    for cfg in configs(f)[:3]:
        h = ta.H(ctx.lk)
        cfg.apply(h)
        lb = h.lookback(f, cfg.opt)
        if type(lb) is not int or lb < 0 or lb > 12:
            continue
        N = lb + 2
        ins = [h.arr(nm, N, vals=period_vals(f, cfg.opt, N) if nm == 'inPeriods' else None) for nm, _ in f.ins]
        A, t = call_batch(h.fork(), f, cfg.opt, ins, 0, N - 1, N)
        g0 = h.fork(); A, t = call_batch(g0, f, cfg.opt, ins, 0, N - 1, N)
        if t:
            continue
        g = h.fork()
        _, hd = newholder(g, info_again(g, f))
        outs = [g.buf(N, ty, nm) for nm, ty in f.outs]
        vs = [g.optval(o, cfg.opt[o.name]) for o in f.opts]
        try:
            for fn, a in set_in(g, hd, lay, dict(zip(names_of(f), ins))) + set_opt(g, hd, f, vs) + set_out(g, hd, f, outs):
                g.call(fn, *a)
            ob = g.buf(1, 'int'); on = g.buf(1, 'int')
            r = g.call('TA_CallFunc', hd, 0, N - 1, ob, on)
        except PathAbort:
            continue
        c = Cmp(f, N, R, 'value', g, ins)
        c.add_runs('frame', vals(g0, f, A[3], N - lb), vals(g, f, outs, N - lb), {'kind': 'same', 'f': f.name, 'opt': cfg.opt, 'cfg': cfg.json()})
        n0 = len(R.cands)
        st = R.status, R.note
        c.decide('the frame gives another value')
        R.status, R.note = st
        for x in R.cands[n0:]:
            out += x['scens']
        del R.cands[n0:]
    return out


def info_again(g, f):
    return func_info(g, f.name)


def t_forward(task, ctx, R, h, f):
    info = func_info(h, f.name)
    if info is None:
        ask(R, f.name + ' is found by its name', True, task['key'] + ':name', lambda tr, m: [{'kind': 'name', 'name': f.name}])
        return
    lay = layout(f, info)
    if lay is None or len(info['opts']) != len(f.opts) or len(info['outs']) != len(f.outs):
        ask(R, f.name + ': the published parameters are those of the direct call', True, task['key'] + ':params', lambda tr, m: [{'kind': 'counts', 'f': f.name}])
        return
    n = f.name
    E = h.E
    strm = (h.E.new(h.S, 64, 'undef', 'heap', 'stream state'), 0)
    strm2 = (h.E.new(h.S, 64, 'undef', 'heap', 'other stream state'), 0)
    fl = (h.E.new(h.S, 8, 'undef', 'in', 'FILE'), 0)
    obv, onv = tm.var('count_begin', 'i32'), tm.var('count_nb', 'i32')

    def w_counts(E_, S, args):
        for p, v in ((args[-1 - len(f.outs) - 1], obv), (args[-1 - len(f.outs)], onv)):
            if type(p) is tuple and p[0] > 0:
                E_.wobj(S, p[0]).cells[p[1]] = (4, v)

    def w_handle(E_, S, args):
        p = args[0]
        if type(p) is tuple and p[0] > 0:
            E_.wobj(S, p[0]).cells[p[1]] = (8, strm)

    def w_null(E_, S, args):
        p = args[0]
        if type(p) is tuple and p[0] > 0:
            E_.wobj(S, p[0]).cells[p[1]] = (8, (0, 0))
    rec = {'TA_' + n: Rec(h, 'TA_' + n, w_counts), 'TA_%s_Lookback' % n: Rec(h, 'TA_%s_Lookback' % n), 'TA_%s_StateInit' % n: Rec(h, 'TA_%s_StateInit' % n, w_handle),
           'TA_%s_State' % n: Rec(h, 'TA_%s_State' % n), 'TA_%s_BatchState' % n: Rec(h, 'TA_%s_BatchState' % n, w_counts), 'TA_%s_StateFree' % n: Rec(h, 'TA_%s_StateFree' % n, w_null),
           'TA_%s_StateSave' % n: Rec(h, 'TA_%s_StateSave' % n), 'TA_%s_StateLoad' % n: Rec(h, 'TA_%s_StateLoad' % n, w_handle)}
    vs = [tm.var(o.name, 'f64' if o.kind == 'real' else 'i32') for o in f.opts]
    ws = [tm.var('other_' + o.name, 'f64' if o.kind == 'real' else 'i32') for o in f.opts]
    ds = [tm.fc(float(p['default'])) if o.kind == 'real' else int(p['default']) for o, p in zip(f.opts, info['opts'])]
    s, e = tm.var('startIdx', 'i32'), tm.var('endIdx', 'i32')
    values = {nm: tm.var('value_' + nm) for nm, _ in f.ins}
    fail = []

    def expect(what, g, fn, api, args, want, ret=True, handle=None, holder=None):
        """one abstract call: exactly one direct call with the wanted arguments, its code returned"""
        rc = rec[fn]; n0 = {k: len(x.calls) for k, x in rec.items()}
        ne = len(E.errors)
        try:
            r = g.call(api, *args) if type(api) is str else g.E.callptr(g.S, api, tuple(args))
        except PathAbort:
            r = None
        new = {k: x.calls[n0[k]:] for k, x in rec.items() if x.calls[n0[k]:]}
        bad = False
        if r is None or len(E.errors) > ne:
            bad = True
        elif list(new) != [fn] or len(new[fn]) != 1 or new[fn][0][0] is not g.S.pc and new[fn][0][0] != g.S.pc or len(new[fn][0][1]) != len(want):
            bad = True
        else:
            got = new[fn][0][1]
            for x, y in zip(got, want):
                if y is not None:
                    bad = bor(bad, differ(x, y))
            if handle is not None:
                bad = bor(bad, differ(handle, g.E.load(g.S, got[0], 8, 'p')))
            if ret:
                bad = bor(bad, differ(r, rc.ret))
        def mk(tr, m):
            sc = scens(f)
            return sc
        v = ask(R, '%s: %s' % (n, what), band(g.S.pc if r is not None else True, bad), task['key'] + ':' + what, mk)
        if v: fail.append(what)
        return r

    def arrays(g, tag=''):
        ins = {nm: g.arr(tag + nm, 1, vals=[values[nm] if not tag else tm.var(tag + 'value_' + nm)]) for nm, _ in f.ins}
        return ins, [g.buf(1, t, tag + nm) for nm, t in f.outs]

    def setall(g, calls, what):
        for fn, a in calls:
            r = g.call(fn, *a)
            ask(R, '%s: %s accepts its parameter %s' % (n, fn, what), differ(r, 0), '%s:%s' % (task['key'], fn), lambda tr, m: scens(f))

    g0 = h.fork()
    r, hd = newholder(g0, info)
    if ask(R, n + ': a holder is created', True if r != 0 or hd == (0, 0) else False, task['key'] + ':alloc', lambda tr, m: scens(f)):
        return
    st = g0.ptrvar('state out', (1, 1))
    r = g0.call('TA_GetParamStatePtr', hd, st)
    ask(R, n + ': a new holder has no stream', bor(differ(r, 0), differ(g0.get(st, 0, 'ptr'), (0, 0))), task['key'] + ':state', lambda tr, m: scens(f))
    for order in ('in order', 'in reverse order', 'set twice', 'beside another holder', 'options left at their defaults'):
        g = g0.fork()
        ins, outs = arrays(g)
        calls = set_in(g, hd, lay, ins) + set_opt(g, hd, f, vs) + set_out(g, hd, f, outs)
        ov = vs
        if order == 'in reverse order':
            calls.reverse()
        elif order == 'set twice':
            i2, o2 = arrays(g, 'first_')
            calls = set_in(g, hd, lay, i2) + set_opt(g, hd, f, ws) + set_out(g, hd, f, o2) + calls
        elif order == 'beside another holder':
            i2, o2 = arrays(g, 'first_')
            _, hd2 = newholder(g, info)
            calls += set_in(g, hd2, lay, i2) + set_opt(g, hd2, f, ws) + set_out(g, hd2, f, o2)
            calls.append(('TA_SetParamStatePtr', [hd2, strm2]))
        elif order == 'options left at their defaults':
            calls = set_in(g, hd, lay, ins) + set_out(g, hd, f, outs)
            ov = ds
        setall(g, calls, order)
        al = [ins[nm] for nm, _ in f.ins]
        ob, on = g.buf(1, 'int', 'outBegIdx'), g.buf(1, 'int', 'outNBElement')
        expect('TA_CallFunc, parameters ' + order, g, 'TA_' + n, 'TA_CallFunc', [hd, s, e, ob, on], [s, e] + al + ov + [ob, on] + outs)
        ask(R, n + ': the reported range is the one of the direct call', bor(differ(g.get(ob, 0, 'int'), obv), differ(g.get(on, 0, 'int'), onv)), task['key'] + ':range', lambda tr, m: scens(f))
        lk = g.buf(1, 'int', 'lookback')
        r = expect('TA_GetLookback, parameters ' + order, g, 'TA_%s_Lookback' % n, 'TA_GetLookback', [hd, lk], ov, ret=False)
        if r is not None:
            ask(R, n + ': the lookback is the one of the direct call', bor(differ(r, 0), differ(g.get(lk, 0, 'int'), rec['TA_%s_Lookback' % n].ret)), task['key'] + ':lookback', lambda tr, m: scens(f))
        expect('TA_InitNewState, parameters ' + order, g, 'TA_%s_StateInit' % n, 'TA_InitNewState', [hd], [None] + ov)
        g.call('TA_GetParamStatePtr', hd, st)
        ask(R, n + ': the holder keeps the new stream', differ(g.get(st, 0, 'ptr'), strm), task['key'] + ':state', lambda tr, m: scens(f))
        cur = strm
        for k in range(2):
            expect('TA_CallFuncState, parameters ' + order, g, 'TA_%s_State' % n, 'TA_CallFuncState', [hd], [cur] + [values[nm] for nm, _ in f.ins] + outs)
            expect('TA_CallFuncBatchState, parameters ' + order, g, 'TA_%s_BatchState' % n, 'TA_CallFuncBatchState', [hd, s, e, ob, on], [cur, s, e] + al + [ob, on] + outs)
            ask(R, n + ': the reported block range is the one of the direct call', bor(differ(g.get(ob, 0, 'int'), obv), differ(g.get(on, 0, 'int'), onv)), task['key'] + ':blockrange', lambda tr, m: scens(f))
            expect('TA_SaveState', g, 'TA_%s_StateSave' % n, 'TA_SaveState', [hd, fl], [cur, fl])
            if k == 0:
                r = g.call('TA_SetParamStatePtr', hd, strm2)
                ask(R, n + ': another stream can be put into the holder', differ(r, 0), task['key'] + ':setstate', lambda tr, m: scens(f))
                cur = strm2
        expect('TA_FreeState', g, 'TA_%s_StateFree' % n, 'TA_FreeState', [hd], [None], handle=(0, 0))
        g.call('TA_GetParamStatePtr', hd, st)
        ask(R, n + ': a released stream leaves the holder', differ(g.get(st, 0, 'ptr'), (0, 0)), task['key'] + ':freed', lambda tr, m: scens(f))
        expect('TA_LoadState', g, 'TA_%s_StateLoad' % n, 'TA_LoadState', [hd, fl], [None, fl])
        g.call('TA_GetParamStatePtr', hd, st)
        ask(R, n + ': the holder keeps the loaded stream', differ(g.get(st, 0, 'ptr'), strm), task['key'] + ':loaded', lambda tr, m: scens(f))
        # parameters can be exchanged between calls: the next call sees the new ones
        if order == 'in order':
            i2, o2 = arrays(g, 'next_')
            setall(g, set_in(g, hd, lay, i2) + set_opt(g, hd, f, ws) + set_out(g, hd, f, o2), 'after a call')
            expect('TA_CallFunc after new parameters', g, 'TA_' + n, 'TA_CallFunc', [hd, s, e, ob, on], [s, e] + [i2[nm] for nm, _ in f.ins] + ws + [ob, on] + o2)
            expect('TA_CallFuncState after new parameters', g, 'TA_%s_State' % n, 'TA_CallFuncState', [hd], [strm] + [tm.var('next_value_' + nm) for nm, _ in f.ins] + o2)
            # the function pointers handed out lead to the same entry points
            fp = g.ptrvar('function pointer', (0, 0))
            priv = g.E.load(g.S, hd, 8, 'p')
            al2 = [i2[nm] for nm, _ in f.ins]
            for q, fn, args, want in (('InitNewState', '_StateInit', [priv], [None] + ws), ('CallFuncState', '_State', [priv], [strm] + [tm.var('next_value_' + nm) for nm, _ in f.ins] + o2),
                                      ('CallFuncBatchState', '_BatchState', [priv, s, e, ob, on], [strm, s, e] + al2 + [ob, on] + o2), ('SaveState', '_StateSave', [priv, fl], [strm, fl]),
                                      ('FreeState', '_StateFree', [priv], [None]), ('LoadState', '_StateLoad', [priv, fl], [None, fl])):
                r = g.call('TA_Get%sFuncPtr' % q, info['info'], fp)
                p = g.get(fp, 0, 'ptr')
                if not ask(R, '%s: TA_Get%sFuncPtr answers' % (n, q), bor(differ(r, 0), differ((0, 0), p) is False), '%s:%s' % (task['key'], q), lambda tr, m: [{'kind': 'fptr', 'f': n, 'opt': c.opt} for c in configs(f)[:2]]):
                    nf = len(fail)
                    expect('TA_Get%sFuncPtr' % q, g, 'TA_%s%s' % (n, fn), p, args, want)
                    if len(fail) > nf and R.cands:
                        R.cands[-1]['scens'] = [{'kind': 'fptr', 'f': n, 'opt': c.opt} for c in configs(f)[:2]]
        # nothing is left allocated after the holder is released
        g.call('TA_SetParamStatePtr', hd, (0, 0))
        r = g.call('TA_ParamHolderFree', hd)
        if order == 'beside another holder': g.call('TA_ParamHolderFree', hd2)
        left = False
        for nm, a in g.live_heap():
            if 'stream state' not in nm: left = bor(left, a)
        ask(R, n + ': the holder is released completely', bor(differ(r, 0), left), task['key'] + ':free', lambda tr, m: [{'kind': 'leak', 'f': n}])
        if fail:
            break
    R.bounds = '5 orders of use'
    if fail:
        more = by_value(ctx, R, f, info, lay)
        for c in R.cands:
            if c['scens'] and c['scens'][0]['kind'] == 'same':
                c['scens'] = more + c['scens']


# ------------------------------------------------------------------ refusals
def cells(g, p):
    """contents of the holder and everything it owns"""
    out = {}
    st = [p]
    while st:
        q = st.pop()
        if type(q) is not tuple or q[0] <= 0 or q[0] in out:
            continue
        o = g.E.robj(g.S, q[0])
        if o is None or o.kind != 'heap':
            continue
        out[q[0]] = dict(o.cells)
        st += [v for _, v in o.cells.values() if type(v) is tuple]
    return out


def changed(a, b):
    bad = False
    for i in a:
        x, y = a[i], b.get(i)
        if y is None:
            return True
        for k in set(x) | set(y):
            u, v = x.get(k), y.get(k)
            if u is None or v is None:
                bad = True
            else:
                bad = bor(bad, differ(u[1], v[1]))
    return bad


def t_refuse(task, ctx, R, h, f):
    n = f.name
    info = func_info(h, n)
    if info is None:
        return
    lay = layout(f, info)
    if lay is None:
        return
    E = h.E
    hdl = info['handle']
    called = []
    for x in ('', '_Lookback', '_StateInit', '_State', '_BatchState', '_StateFree', '_StateSave', '_StateLoad'):
        h.E.stubs['TA_%s%s' % (n, x)] = lambda E_, S, *a, x=x: (called.append(S.pc), tm.var('direct', 'i32'))[1]
    r, hd = newholder(h, info)
    outp = h.ptrvar('info', (0, 0))
    one = h.arr('one', 1); oneI = h.arr('oneI', 1, sort='i32')
    ins = {nm: h.arr(nm, 1) for nm, _ in f.ins}
    outs = [h.buf(1, t, nm) for nm, t in f.outs]

    def refused(what, g, fn, args, code, scen, cond=True, same=True):
        """under cond the call returns the code and leaves the holder as it was"""
        b = cells(g, hd); n0 = len(called); ne = len(E.errors)
        try:
            r = g.call(fn, *args)
        except PathAbort:
            r = None
        bad = r is None or len(E.errors) > ne
        if not bad:
            bad = band(g.S.pc, band(cond, differ(r, code)))
            if same: bad = bor(bad, band(band(g.S.pc, cond), changed(b, cells(g, hd))))
            for pc in called[n0:]:
                bad = bor(bad, band(pc, cond))
        return ask(R, '%s: %s' % (fn, what), bad, '%s:%s' % (task['key'], fn), lambda tr, m: scen(tr, m) if callable(scen) else scen)

    def val_of(tr, m, nm, d):
        x = tr.vars.get(nm) if tr is not None else None
        if x is None or m is None: return d
        return m.eval(x, model_completion=True).as_signed_long()
    idx = tm.var('paramIndex', 'i32')
    v_int, v_real = tm.var('optValue', 'i32'), tm.var('optReal')
    pr6 = [h.arr(w, 1) for w, _ in PRICE[:6]]
    setters = [('TA_SetInputParamIntegerPtr', 'nin', 'ins', 'integer', [oneI]), ('TA_SetInputParamRealPtr', 'nin', 'ins', 'real', [one]), ('TA_SetInputParamPricePtr', 'nin', 'ins', 'price', pr6),
               ('TA_SetOptInputParamInteger', 'nopt', 'opts', 'int', [v_int]), ('TA_SetOptInputParamReal', 'nopt', 'opts', 'real_', [v_real]),
               ('TA_SetOutputParamIntegerPtr', 'nout', 'outs', 'integer', [oneI]), ('TA_SetOutputParamRealPtr', 'nout', 'outs', 'real', [one])]
    getters = [('TA_GetInputParameterInfo', 'nin'), ('TA_GetOptInputParameterInfo', 'nopt'), ('TA_GetOutputParameterInfo', 'nout'), ('TA_GetStructParameterInfo', 'nstruct')]
    # every index beyond the published count
    for fn, cnt in getters:
        g = h.fork()
        g.S.pc = band(g.S.pc, bnot(icmp('ult', idx, info[cnt], 32)))
        refused('an index beyond the published count is refused', g, fn, [hdl, idx, outp], ta.BAD_PARAM, lambda tr, m, fn=fn, cnt=cnt: [{'kind': 'op', 'f': n, 'op': [fn, 'H', x, 'info'], 'want': ta.BAD_PARAM} for x in (val_of(tr, m, 'paramIndex', info[cnt]), info[cnt], -1)])
        for k in range(info[cnt]):
            g = h.fork()
            r = g.call(fn, hdl, k, outp)
            ask(R, '%s answers for parameter %d' % (fn, k), bor(differ(r, 0), g.get(outp, 0, 'ptr') == (0, 0)), '%s:%s' % (task['key'], fn), lambda tr, m: [{'kind': 'op', 'f': n, 'op': [fn, 'H', k, 'info'], 'want': 0}])
        for hp, ip in (((0, 0), outp), (hdl, (0, 0))):
            refused('a missing argument is refused', h.fork(), fn, [hp, 0, ip], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': [fn, 'H' if hp != (0, 0) else None, 0, 'info' if ip != (0, 0) else None], 'want': ta.BAD_PARAM}])

    def enc(a, j=0):
        return 'int' if a is oneI else 'real' if a is one else 'arr' if a in pr6 else v_name(a)

    def v_name(a):
        return 3 if a is v_int else ['real', 1.5] if a is v_real else a
    for fn, cnt, lst, kind, args in setters:
        g = h.fork()
        g.S.pc = band(g.S.pc, bnot(icmp('ult', idx, info[cnt], 32)))
        refused('an index beyond the published count is refused', g, fn, [hd, idx] + args, ta.BAD_PARAM,
                lambda tr, m, fn=fn, cnt=cnt, args=args: [{'kind': 'op', 'f': n, 'op': [fn, 'P', x] + [enc(a) for a in args], 'want': ta.BAD_PARAM, 'then': True} for x in (val_of(tr, m, 'paramIndex', info[cnt]), info[cnt], -1)])
        for k in range(info[cnt]):
            t = info[lst][k]['type']
            if (t in ('int_range', 'int_list') and kind == 'int') or (t in ('real_range', 'real_list') and kind == 'real_') or t == kind:
                if args and kind in ('real', 'integer'):
                    refused('a missing array is refused', h.fork(), fn, [hd, k, (0, 0)], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': [fn, 'P', k, None], 'want': ta.BAD_PARAM}])
                continue
            refused('a parameter of another kind is refused', h.fork(), fn, [hd, k] + args, INV_TYPE,
                    [{'kind': 'op', 'f': n, 'op': [fn, 'P', k] + [enc(a) for a in args], 'want': INV_TYPE, 'then': True}])
        refused('a missing holder is refused', h.fork(), fn, [(0, 0), 0] + args, ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': [fn, None, 0] + [enc(a) for a in args], 'want': ta.BAD_PARAM}])
    # price components: every subset of missing ones
    for kind, k, comp in lay:
        if kind != 'price':
            continue
        for first in (False, True):
            g = h.fork()
            if first:
                for fn, a in set_in(g, hd, lay, ins): g.call(fn, *a)
            bs = {w: tm.fresh_bool('missing_' + w) for w, _ in PRICE[:6]}
            req = False
            for w, p in comp: req = bor(req, bs[w])
            args = [hd, k] + [ite(bs[w], (0, 0), a) for (w, _), a in zip(PRICE[:6], pr6)]
            sc = [{'kind': 'op', 'f': n, 'op': ['TA_SetInputParamPricePtr', 'P', k] + [None if w == x or w not in dict(comp) else 'arr' for w, _ in PRICE[:6]], 'want': ta.BAD_PARAM, 'then': first, 'first': first} for x, _ in comp]
            refused('a missing required price component is refused' + (' and the earlier setting stays' if first else ''), g, 'TA_SetInputParamPricePtr', args, ta.BAD_PARAM, sc, req, same=first)
            if not first:
                r = None
                g = h.fork()
                r = g.call('TA_SetInputParamPricePtr', hd, k, *[a if w in dict(comp) else (0, 0) for (w, _), a in zip(PRICE[:6], pr6)])
                ask(R, 'TA_SetInputParamPricePtr: components that are not required may be missing', differ(r, 0), task['key'] + ':price', lambda tr, m: scens(f))
    # calls with every subset of parameters missing
    all_in = set_in(h, hd, lay, ins); all_out = set_out(h, hd, f, outs)
    ob, on = h.buf(1, 'int'), h.buf(1, 'int')
    ni, no = len(all_in), len(all_out)
    s, e = tm.var('startIdx', 'i32'), tm.var('endIdx', 'i32')
    for mask in range(1 << (ni + no)):
        if mask == (1 << (ni + no)) - 1:
            continue
        g = h.fork()
        for k, (fn, a) in enumerate(all_in + all_out):
            if mask >> k & 1: g.call(fn, *a)
        w = IN_MISS if mask & ((1 << ni) - 1) != (1 << ni) - 1 else OUT_MISS
        for fn, args in (('TA_CallFunc', [hd, s, e, ob, on]), ('TA_CallFuncState', [hd]), ('TA_CallFuncBatchState', [hd, s, e, ob, on])):
            refused('a call with parameters missing is refused', g.fork(), fn, args, w, [{'kind': 'op', 'f': n, 'set': mask, 'op': [fn, 'P'] + ([0, 0, 'info', 'info'] if len(args) > 1 else []), 'want': w}])
    g = h.fork()
    for fn, a in all_in + all_out: g.call(fn, *a)
    full = (1 << (ni + no)) - 1
    for fn in ('TA_CallFunc', 'TA_CallFuncBatchState'):
        for p, q in (((0, 0), on), (ob, (0, 0))):
            refused('a missing range output is refused', g.fork(), fn, [hd, s, e, p, q], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'set': full, 'op': [fn, 'P', 0, 0, 'info' if p != (0, 0) else None, 'info' if q != (0, 0) else None], 'want': ta.BAD_PARAM}])
    fl = (h.E.new(h.S, 8, 'undef', 'in', 'FILE'), 0)
    rest = [('TA_CallFunc', [s, e, ob, on], [0, 0, 'info', 'info']), ('TA_CallFuncState', [], []), ('TA_CallFuncBatchState', [s, e, ob, on], [0, 0, 'info', 'info']), ('TA_GetLookback', [ob], ['info']),
            ('TA_InitNewState', [], []), ('TA_FreeState', [], []), ('TA_SaveState', [fl], ['info']), ('TA_LoadState', [fl], ['info']), ('TA_GetParamStatePtr', [outp], ['info']), ('TA_SetParamStatePtr', [(0, 0)], [None])]
    for fn, a, ea in rest:
        refused('a missing holder is refused', h.fork(), fn, [(0, 0)] + a, ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': [fn, None] + ea, 'want': ta.BAD_PARAM}])
    refused('a missing output is refused', h.fork(), 'TA_GetLookback', [hd, (0, 0)], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': ['TA_GetLookback', 'P', None], 'want': ta.BAD_PARAM}])
    refused('a missing output is refused', h.fork(), 'TA_GetParamStatePtr', [hd, (0, 0)], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': ['TA_GetParamStatePtr', 'P', None], 'want': ta.BAD_PARAM}])
    refused('a missing argument is refused', h.fork(), 'TA_ParamHolderAlloc', [(0, 0), outp], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': ['TA_ParamHolderAlloc', None, 'info'], 'want': ta.BAD_PARAM}])
    refused('a missing argument is refused', h.fork(), 'TA_ParamHolderAlloc', [hdl, (0, 0)], ta.BAD_PARAM, [{'kind': 'op', 'f': n, 'op': ['TA_ParamHolderAlloc', 'H', None], 'want': ta.BAD_PARAM}])
    # an object that is no holder, an object that is no handle: every other first word
    g = h.fork()
    priv = E.load(g.S, hd, 8, 'p')
    mg = E.robj(g.S, priv[0]).cells.get(priv[1]); mh = E.robj(g.S, hdl[0]).cells.get(hdl[1])
    w = tm.var('magic', 'i32')
    for what, real, code in (('holder', mg, INV_HOLDER), ('handle', mh, INV_HANDLE)):
        if real is None or type(real[1]) is not int:
            continue
        g = h.fork()
        o = (E.new(g.S, 256, 'zero', 'in', 'no ' + what), 0)
        g.put(o, 0, w, 'int')
        fake = g.ptrvar('fake holder', o) if what == 'holder' else o
        g.S.pc = band(g.S.pc, bnot(icmp('eq', w, real[1], 32)))
        if what == 'holder':
            lst = [(fn, [fake, 0] + args, ['F', 0] + [enc(a) for a in args]) for fn, _, _, _, args in setters] + [(fn, [fake] + a, ['F'] + ea) for fn, a, ea in rest] + [('TA_ParamHolderFree', [fake], ['F'])]
        else:
            lst = [(fn, [fake, 0, outp], ['N', 0, 'info']) for fn, _ in getters] + [('TA_GetFuncInfo', [fake, outp], ['N', 'info']), ('TA_ParamHolderAlloc', [fake, outp], ['N', 'info'])]
        for fn, args, ea in lst:
            refused('what is not a %s is refused' % what, g.fork(), fn, args, code, lambda tr, m, fn=fn, ea=ea, code=code: [{'kind': 'op', 'f': n, 'op': [fn] + ea, 'magic': val_of(tr, m, 'magic', 12345), 'want': code}])
    R.bounds = 'all indices, magic numbers, subsets'


# ------------------------------------------------------------------ names, groups, enumeration
def t_lookup(task, ctx, R, h, f):
    L = task['L']
    names = sorted(n for n in ctx.api if n[0] == L) if L else []
    E = h.E
    ln = 24
    i = E.new(h.S, ln + 1, 'undef', 'in', 'name')
    p = (i, 0)
    ph = h.ptrvar('handle', (0, 0))
    bs = [tm.var('char_%d' % k, 'i8') for k in range(ln)]
    for k in range(ln): h.put8 = None; h.S.mem[i].cells[k] = (1, bs[k])
    h.S.mem[i].cells[ln] = (1, 0)
    hs = {}
    for n in names:
        d = func_info(h, n)
        if ask(R, '%s is found by its name and calls itself so' % n, d is None or d['name'] != n, 'lookup:' + n, lambda tr, m: [{'kind': 'name', 'name': n}]):
            continue
        hs[n] = d['handle']
    firsts = [ord(L)] if L else [c for c in range(256) if not (65 <= c <= 90)]

    def show(tr, m):
        out = []
        for x in bs:
            z = tr.vars.get(str(x.args)) if tr is not None else None
            out.append((m.eval(z, model_completion=True).as_long() if z is not None else 65) & 255 if m is not None else 65)
        return out
    def one(pre, used):
        """prefix bytes given, the next byte none of `used`, the rest arbitrary"""
        g = h.fork()
        cells_ = E.wobj(g.S, i).cells
        for k, c in enumerate(pre): cells_[k] = (1, c - 256 if c > 127 else c)
        for u in used: g.S.pc = band(g.S.pc, bnot(icmp('eq', bs[len(pre)], u, 8)))
        try:
            r = g.call('TA_GetFuncHandle', p, ph)
        except PathAbort:
            ask(R, 'TA_GetFuncHandle returns', True, 'lookup', lambda tr, m: [])
            return
        hp = g.get(ph, 0, 'ptr')
        any_ = False
        bad = False
        for n, hd in hs.items():
            q = n.encode() + b'\0'
            if bytes(pre)[:len(q)] != q[:len(pre)]:
                continue
            cond = g.S.pc
            for k in range(len(pre), len(q)): cond = band(cond, icmp('eq', bs[k], q[k], 8))
            any_ = bor(any_, cond)
            bad = bor(bad, band(cond, bor(differ(r, 0), differ(hp, hd))))
        want = NOT_FOUND if pre[0] else ta.BAD_PARAM
        bad = band(g.S.pc, bor(bad, band(bnot(any_), differ(r, want))))
        ask(R, 'names starting with %s: exactly the published ones are found' % bytes(pre), bad, 'lookup:%s' % bytes(pre), lambda tr, m: [{'kind': 'bytes', 'name': list(pre) + show(tr, m)[len(pre):]}])

    def split(pre):
        ns = [n.encode() + b'\0' for n in names if (n.encode() + b'\0')[:len(pre)] == bytes(pre)]
        if len(ns) <= 3 or pre[-1] == 0:
            return one(pre, [])
        nx = sorted({n[len(pre)] for n in ns})
        one(pre, nx)
        for c in nx: split(pre + [c])
    for c in firsts:
        split([c])
    if not L:
        for a, b, w in (((0, 0), ph, ta.BAD_PARAM), (cstr(h, 'SMA'), (0, 0), ta.BAD_PARAM)):
            r = h.fork().call('TA_GetFuncHandle', a, b)
            ask(R, 'a missing argument is refused', differ(r, w), 'lookup:null', lambda tr, m: [{'kind': 'op', 'f': 'SMA', 'op': ['TA_GetFuncHandle', None if a == (0, 0) else 'H', None if b == (0, 0) else 'info'], 'want': w}])
    R.bounds = 'names of up to %d bytes' % ln


def table(h, t):
    n = rd(h, t, 0, 4, 'i32'); p = rd(h, t, 8, 8, 'p')
    return [rstr(h, rd(h, p, 8 * k, 8, 'p')) for k in range(n)] if type(n) is int and n < 1000 else None


def t_groups(task, ctx, R, h, f):
    E = h.E
    tp = h.ptrvar('table', (0, 0))
    mk = lambda tr, m: [{'kind': 'groups'}]
    g = h.fork()
    r = g.call('TA_GroupTableAlloc', tp)
    tb = g.get(tp, 0, 'ptr')
    groups = table(g, tb) if r == 0 else []
    infos = {n: func_info(h, n) for n in ctx.api}
    want = {}
    for n, d in infos.items():
        if d: want.setdefault(d['group'], []).append(n)
    ask(R, 'the group table names every group of the indicators once', groups is None or len(set(groups)) != len(groups) or not set(want) <= set(groups), 'groups:table', mk)
    r2 = g.call('TA_FuncTableFree', tb)
    ask(R, 'a group table is no function table', differ(r2, ta.BAD_OBJ), 'groups:kind', mk)
    r = g.call('TA_GroupTableFree', tb)
    ask(R, 'the group table is released', bor(differ(r, 0), len(g.live_heap()) > 0), 'groups:free', mk)
    for name in groups or []:
        g = h.fork()
        r = g.call('TA_FuncTableAlloc', cstr(g, name), tp)
        tb = g.get(tp, 0, 'ptr')
        ask(R, 'the table of group %s is created' % name, differ(r, 0), 'groups:' + name, mk)
        if r != 0: continue
        got = table(g, tb)
        ask(R, 'the table of group %s lists exactly its indicators' % name, got is None or sorted(got) != sorted(want.get(name, [])), 'groups:' + name, mk)
        r2 = g.call('TA_GroupTableFree', tb)
        ask(R, 'a function table is no group table', differ(r2, ta.BAD_OBJ), 'groups:kind', mk)
        r = g.call('TA_FuncTableFree', tb)
        ask(R, 'the table of group %s is released' % name, bor(differ(r, 0), len(g.live_heap()) > 0), 'groups:free', mk)
    # any other name
    ln = 32
    i = E.new(h.S, ln + 1, 'undef', 'in', 'group')
    bs = [tm.var('char_%d' % k, 'i8') for k in range(ln)]
    for k in range(ln): h.S.mem[i].cells[k] = (1, bs[k])
    h.S.mem[i].cells[ln] = (1, 0)
    known = False
    for name in groups or []:
        c = True
        for k, b in enumerate(name.encode() + b'\0'): c = band(c, icmp('eq', bs[k], b, 8))
        known = bor(known, c)
    g = h.fork()
    g.S.pc = band(g.S.pc, bnot(known))
    r = g.call('TA_FuncTableAlloc', (i, 0), tp)

    def mk2(tr, m):
        s = []
        for x in bs:
            z = tr.vars.get(str(x.args)) if tr is not None else None
            s.append((m.eval(z, model_completion=True).as_long() if z is not None else 65) & 255 if m is not None else 65)
        return [{'kind': 'gbytes', 'name': s}]
    ask(R, 'any other group name is refused', bor(differ(r, GROUP_NF), len(g.live_heap()) > 0), 'groups:other', mk2)
    for a, b in (((0, 0), tp), (cstr(h, 'x'), (0, 0))):
        r = h.fork().call('TA_FuncTableAlloc', a, b)
        ask(R, 'a missing argument is refused', differ(r, ta.BAD_PARAM), 'groups:null', mk)
    r = h.fork().call('TA_GroupTableAlloc', (0, 0))
    ask(R, 'a missing argument is refused', differ(r, ta.BAD_PARAM), 'groups:null', mk)
    R.bounds = '%d groups, other names of up to %d bytes' % (len(groups or []), ln)


def t_foreach(task, ctx, R, h, f):
    E = h.E
    seen = []
    E.stubs['irsym_callback'] = lambda E_, S, info, data: seen.append((info, data))
    cb = (E.fn_id(None, 'irsym_callback'), 0)
    data = tm.var('opaque', 'ptr') if False else (E.new(h.S, 8, 'undef', 'in', 'opaque'), 0)
    r = h.call('TA_ForEachFunc', cb, data)
    mk = lambda tr, m: [{'kind': 'foreach'}]
    ask(R, 'TA_ForEachFunc succeeds', differ(r, 0), 'foreach:code', mk)
    got = [rstr(h, rd(h, i, 0, 8, 'p')) for i, _ in seen]
    ask(R, 'TA_ForEachFunc visits every indicator once, with the caller\'s data', sorted(got) != sorted(ctx.api) or any(d != data for _, d in seen), 'foreach:set', mk)
    bad = [n for n, (i, _) in zip(got, seen) if (func_info(h, n) or {}).get('info') != i]
    ask(R, 'TA_ForEachFunc hands out the information of the looked-up indicator', bool(bad), 'foreach:info', mk)
    ask(R, 'TA_ForEachFunc goes in alphabetical order of the first letter', [n[0] for n in got] != sorted(n[0] for n in got), 'foreach:order', mk)
    r = h.call('TA_ForEachFunc', (0, 0), data)
    ask(R, 'a missing callback is refused', differ(r, ta.BAD_PARAM), 'foreach:null', mk)
    R.bounds = '%d indicators' % len(got)


# ------------------------------------------------------------------ replay on the real build
def nat_handle(L, name):
    import ctypes as C
    p = C.c_void_p(0)
    r = L.TA_GetFuncHandle(name if isinstance(name, bytes) else name.encode(), C.byref(p))
    return r, p


def nat_info(L, hd):
    """published parameters through the real query functions"""
    import ctypes as C

    class FI(C.Structure):
        _fields_ = [('name', C.c_char_p), ('group', C.c_char_p), ('hint', C.c_char_p), ('camel', C.c_char_p), ('flags', C.c_int), ('nin', C.c_uint), ('nopt', C.c_uint), ('nout', C.c_uint), ('nst', C.c_uint), ('handle', C.c_void_p)]

    class PI(C.Structure):
        _fields_ = [('type', C.c_int), ('name', C.c_char_p), ('flags', C.c_int)]

    class OI(C.Structure):
        _fields_ = [('type', C.c_int), ('name', C.c_char_p), ('flags', C.c_int), ('display', C.c_char_p), ('data', C.c_void_p), ('default', C.c_double)]
    q = C.POINTER(FI)()
    if L.TA_GetFuncInfo(hd, C.byref(q)) != 0:
        return None
    fi = q.contents
    d = {'fi': fi, 'ins': [], 'opts': [], 'outs': [], 'ptr': C.cast(q, C.c_void_p)}
    for k in range(fi.nin):
        p = C.POINTER(PI)(); L.TA_GetInputParameterInfo(hd, k, C.byref(p)); d['ins'].append(p.contents)
    for k in range(fi.nopt):
        p = C.POINTER(OI)(); L.TA_GetOptInputParameterInfo(hd, k, C.byref(p)); d['opts'].append(p.contents)
    for k in range(fi.nout):
        p = C.POINTER(PI)(); L.TA_GetOutputParameterInfo(hd, k, C.byref(p)); d['outs'].append(p.contents)
    return d


class NatHolder:
    def __init__(self, L, f):
        import ctypes as C
        self.L, self.f = L, f
        r, self.h = nat_handle(L, f.name)
        assert r == 0
        self.d = nat_info(L, self.h)
        self.p = C.c_void_p(0)
        self.ret = L.TA_ParamHolderAlloc(self.h, C.byref(self.p))
        info = {'ins': [{'type': ['price', 'real', 'integer', 'pointer'][i.type], 'name': (i.name or b'').decode(), 'flags': i.flags} for i in self.d['ins']]}
        self.lay = layout(f, info)

    def steps(self, arrs, outs, c, skip_opt=False):
        """[callable] setting one parameter each: inputs, options, outputs"""
        import ctypes as C
        L = self.L
        a = {nm: x for (nm, _), x in zip(self.f.ins, arrs)}
        out = []
        for kind, k, comp in self.lay:
            if kind == 'price':
                m = {w: a[p] for w, p in comp}
                out.append(lambda k=k, m=m: L.TA_SetInputParamPricePtr(self.p, k, *[m.get(w) for w, _ in PRICE[:6]]))
            else:
                out.append(lambda k=k, x=a[comp[0][1]]: L.TA_SetInputParamRealPtr(self.p, k, x))
        no = []
        for k, (x, (_, t)) in enumerate(zip(outs, self.f.outs)):
            no.append(lambda k=k, x=x, t=t: (L.TA_SetOutputParamRealPtr if t == 'double' else L.TA_SetOutputParamIntegerPtr)(self.p, k, x))
        op = []
        if not skip_opt:
            for k, o in enumerate(self.f.opts):
                if o.kind == 'real': op.append(lambda k=k, o=o: L.TA_SetOptInputParamReal(self.p, k, C.c_double(c[o.name])))
                else: op.append(lambda k=k, o=o: L.TA_SetOptInputParamInteger(self.p, k, C.c_int(c[o.name])))
        return out, op, no


def nat_same(L, f, c, ins, fptr=False):
    """every abstract call against the direct one: text of the first difference"""
    import ctypes as C
    from ..native import CT, Stream, optargs, File, close
    N = len(ins[0])
    defs = None
    for mode in ('order', 'reverse', 'twice', 'beside', 'default'):
        H = NatHolder(L, f)
        if H.ret != 0: return 'holder creation returned %d' % H.ret
        if H.lay is None or len(H.d['opts']) != len(f.opts) or len(H.d['outs']) != len(f.outs): return 'published parameters do not fit the prototype'
        cc = dict(c)
        if mode == 'default':
            if fptr: continue
            cc = {o.name: (p.default if o.kind == 'real' else int(p.default)) for o, p in zip(f.opts, H.d['opts'])}
        arrs = [(C.c_double * N)(*x) for x in ins]
        outs = [(CT[t] * N)(*([777] * N)) for _, t in f.outs]
        a, op, no = H.steps(arrs, outs, cc, mode == 'default')
        seq = a + op + no
        junk = [(C.c_double * N)(*([5.0] * N)) for _ in ins]; jo = [(CT[t] * N)() for _, t in f.outs]
        oc = dict(configs(f)[-1].opt)
        if mode == 'reverse': seq.reverse()
        if mode == 'twice':
            x = H.steps(junk, jo, oc); seq = x[0] + x[1] + x[2] + seq
        H2 = None
        if mode == 'beside':
            H2 = NatHolder(L, f); x = H2.steps(junk, jo, oc); seq = seq + x[0] + x[1] + x[2]
        for s in seq:
            r = s()
            if r != 0: return 'setting a parameter (%s) returned %d' % (mode, r)
        D = nat_batch(f, cc, ins, 0, N - 1)
        b, n = C.c_int(-99), C.c_int(-99)
        r = L.TA_CallFunc(H.p, 0, N - 1, C.byref(b), C.byref(n))
        got = (r, b.value, n.value)
        if got != D[:3]: return 'TA_CallFunc (%s) gives %r, the direct call %r' % (mode, got, D[:3])
        for (nm, _), x, y in zip(f.outs, outs, D[3]):
            for k in range(len(y)):
                if not close(x[k], y[k]): return 'TA_CallFunc (%s) %s[%d] is %r, the direct call gives %r' % (mode, nm, k, x[k], y[k])
        l = C.c_int(-99)
        r = L.TA_GetLookback(H.p, C.byref(l))
        dl = getattr(L, 'TA_%s_Lookback' % f.name)(*optargs(f, cc))
        if r != 0 or l.value != dl: return 'TA_GetLookback (%s) gives %d, %d, the direct call %d' % (mode, r, l.value, dl)
        # stream
        def ptr(q):
            if not fptr: return None
            fp = C.c_void_p(0)
            r = getattr(L, 'TA_Get%sFuncPtr' % q)(H.d['ptr'], C.byref(fp))
            assert r == 0 and fp.value, 'TA_Get%sFuncPtr returned %d' % (q, r)
            return fp.value
        priv = C.cast(H.p, C.POINTER(C.c_void_p))[0]

        def call(q, *args):
            p = ptr(q)
            if p is None: return {'InitNewState': L.TA_InitNewState, 'CallFuncState': L.TA_CallFuncState, 'CallFuncBatchState': L.TA_CallFuncBatchState, 'SaveState': L.TA_SaveState, 'FreeState': L.TA_FreeState, 'LoadState': L.TA_LoadState}[q](H.p, *args)
            ty = {'CallFuncBatchState': [C.c_int, C.c_int, C.c_void_p, C.c_void_p], 'SaveState': [C.c_void_p], 'LoadState': [C.c_void_p]}.get(q, [])
            return C.CFUNCTYPE(C.c_int, C.c_void_p, *ty)(p)(priv, *args)
        try:
            r = call('InitNewState')
            S = Stream(f, cc)
            if r != S.ret: return 'TA_InitNewState (%s) returns %d, the direct call %d' % (mode, r, S.ret)
            if r == 0:
                half = N // 2
                for i in range(half):
                    for (nm, _), x, src in zip(f.ins, arrs, ins): x[0] = src[i]
                    r = call('CallFuncState'); w = S.step([x[i] for x in ins])
                    if r != w[0]: return 'TA_CallFuncState (%s) bar %d returns %d, the direct call %d' % (mode, i, r, w[0])
                    if r == 0:
                        for (nm, _), x, y in zip(f.outs, outs, w[1]):
                            if not close(x[0], y): return 'TA_CallFuncState (%s) bar %d %s is %r, the direct call gives %r' % (mode, i, nm, x[0], y)
                F, G = File(), File()
                r = call('SaveState', C.c_void_p(F.p.value) if not fptr else F.p.value); w = S.save(G)
                if r != w or F.data() != G.data() and len(F.data()) != len(G.data()): return 'TA_SaveState (%s) returns %d, the direct call %d' % (mode, r, w)
                r = call('FreeState')
                if r != 0: return 'TA_FreeState (%s) returns %d' % (mode, r)
                q = C.c_void_p(1); L.TA_GetParamStatePtr(H.p, C.byref(q))
                if q.value: return 'the released stream stays in the holder'
                F.rewind()
                r = call('LoadState', C.c_void_p(F.p.value) if not fptr else F.p.value)
                if r != 0: return 'TA_LoadState (%s) returns %d' % (mode, r)
                for (nm, _), x, src in zip(f.ins, arrs, ins):
                    for k in range(N): x[k] = src[k]
                m = N - half
                b, n = C.c_int(-99), C.c_int(-99)
                bb = [C.byref(b), C.byref(n)] if not fptr else [C.addressof(b), C.addressof(n)]
                r = call('CallFuncBatchState', half, N - 1, *bb); w = S.batch(ins, half, N - 1)
                if (r, b.value, n.value) != w[:3]: return 'TA_CallFuncBatchState (%s) gives %r, the direct call %r' % (mode, (r, b.value, n.value), w[:3])
                for (nm, _), x, y in zip(f.outs, outs, w[3]):
                    for k in range(len(y)):
                        if not close(x[k], y[k]): return 'TA_CallFuncBatchState (%s) %s[%d] is %r, the direct call gives %r' % (mode, nm, k, x[k], y[k])
        except AssertionError as x:
            return str(x)
        if H2 is not None: L.TA_ParamHolderFree(H2.p)
        r = L.TA_ParamHolderFree(H.p)
        if r != 0: return 'TA_ParamHolderFree returns %d' % r
    return None


def replay(s):
    import ctypes as C
    from ..native import setup, lib, CT
    api = ta.parse_api()
    L = lib(); L.TA_Initialize()
    for fn in ('TA_SetInputParamPricePtr', 'TA_SetInputParamRealPtr', 'TA_SetInputParamIntegerPtr', 'TA_SetOutputParamRealPtr', 'TA_SetOutputParamIntegerPtr', 'TA_CallFunc', 'TA_SetOptInputParamReal', 'TA_SetOptInputParamInteger'):
        getattr(L, fn).argtypes = None
    k = s['kind']
    f = api.get(s.get('f'))
    if k == 'same' or k == 'fptr':
        if s.get('cfg'): setup(s['cfg'])
        c = s['opt']
        sets = [s['ins']] if s.get('ins') else []
        lb = getattr(L, 'TA_%s_Lookback' % f.name)(*native.optargs(f, c))
        sets += [plain_inputs(f, c, max(0, lb) + 12, seed) for seed in range(6)]
        for ins in sets:
            t = nat_same(L, f, c, ins, k == 'fptr')
            if t: return True, t
        return False, 'same'
    if k == 'leak':
        class MI(C.Structure):
            _fields_ = [(x, C.c_size_t) for x in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
        lc = C.CDLL(None); lc.mallinfo2.restype = MI
        r, hd = nat_handle(L, f.name)
        p = C.c_void_p(0)
        a = lc.mallinfo2().uordblks
        for _ in range(4000):
            L.TA_ParamHolderAlloc(hd, C.byref(p)); L.TA_ParamHolderFree(p)
        b = lc.mallinfo2().uordblks
        return b - a > 4000 * 8, '%d bytes stay allocated' % (b - a)
    if k == 'name':
        r, p = nat_handle(L, s['name'])
        if r != 0: return True, 'TA_GetFuncHandle("%s") returns %d' % (s['name'], r)
        d = nat_info(L, p)
        return d is None or d['fi'].name.decode() != s['name'], 'TA_GetFuncHandle("%s") gives %r' % (s['name'], d and d['fi'].name)
    if k == 'counts':
        H = NatHolder(L, f)
        bad = H.lay is None or len(H.d['opts']) != len(f.opts) or len(H.d['outs']) != len(f.outs)
        return bad, 'published: %d inputs %d options %d outputs' % (len(H.d['ins']), len(H.d['opts']), len(H.d['outs']))
    if k == 'bytes':
        b = bytes(s['name'])
        b = b.split(b'\0')[0]
        r, p = nat_handle(L, b)
        want = 0 if b.decode('latin1') in api else NOT_FOUND if b else ta.BAD_PARAM
        if r != want: return True, 'TA_GetFuncHandle(%r) returns %d, expected %d' % (b, r, want)
        if r == 0 and nat_info(L, p)['fi'].name != b: return True, 'TA_GetFuncHandle(%r) gives %r' % (b, nat_info(L, p)['fi'].name)
        return False, 'as published'

    class ST(C.Structure):
        _fields_ = [('size', C.c_uint), ('string', C.POINTER(C.c_char_p)), ('hidden', C.c_void_p)]
    if k in ('groups', 'gbytes'):
        p = C.POINTER(ST)()
        r = L.TA_GroupTableAlloc(C.byref(p))
        if r != 0: return True, 'TA_GroupTableAlloc returns %d' % r
        groups = [p.contents.string[i] for i in range(p.contents.size)]
        if k == 'gbytes':
            b = bytes(s['name']).split(b'\0')[0]
            r = L.TA_FuncTableAlloc(b, C.byref(p))
            return (r == 0) != (b in groups) or r not in (0, GROUP_NF), 'TA_FuncTableAlloc(%r) returns %d' % (b, r)
        if L.TA_FuncTableFree(p) != ta.BAD_OBJ: return True, 'TA_FuncTableFree accepts a group table'
        if L.TA_GroupTableFree(p) != 0: return True, 'TA_GroupTableFree fails'
        want = {}
        for n in api:
            d = nat_info(L, nat_handle(L, n)[1])
            want.setdefault(d['fi'].group, []).append(n.encode())
        if len(set(groups)) != len(groups) or not set(want) <= set(groups): return True, 'groups %r, indicators are in %r' % (groups, list(want))
        for g in groups:
            r = L.TA_FuncTableAlloc(g, C.byref(p))
            if r != 0: return True, 'TA_FuncTableAlloc(%r) returns %d' % (g, r)
            got = [p.contents.string[i] for i in range(p.contents.size)]
            if sorted(got) != sorted(want.get(g, [])): return True, 'group %r: table and indicators differ by %r' % (g, set(got) ^ set(want.get(g, [])) or 'repetition')
            if L.TA_GroupTableFree(p) != ta.BAD_OBJ: return True, 'TA_GroupTableFree accepts a function table'
            if L.TA_FuncTableFree(p) != 0: return True, 'TA_FuncTableFree fails'
        q = C.c_void_p(0)
        for r in (L.TA_FuncTableAlloc(None, C.byref(q)), L.TA_FuncTableAlloc(b'x', None), L.TA_GroupTableAlloc(None)):
            if r != ta.BAD_PARAM: return True, 'a missing argument gives %d' % r
        return False, 'tables agree'
    if k == 'foreach':
        got = []
        CB = C.CFUNCTYPE(None, C.POINTER(C.c_char_p), C.c_void_p)
        cb = CB(lambda i, d: got.append((i[0].decode(), d, C.cast(i, C.c_void_p).value)))
        r = L.TA_ForEachFunc(cb, C.c_void_p(0x1234))
        if r != 0: return True, 'returns %d' % r
        ns = [x[0] for x in got]
        if sorted(ns) != sorted(api): return True, 'visited set differs: %r' % (set(ns) ^ set(api) or 'repetition')
        if any(d != 0x1234 for _, d, _ in got): return True, 'caller data is not handed over'
        if [n[0] for n in ns] != sorted(n[0] for n in ns): return True, 'not alphabetical'
        for n, _, i in got:
            q = C.c_void_p(0); L.TA_GetFuncInfo(nat_handle(L, n)[1], C.byref(q))
            if q.value != i: return True, 'information of %s is another one' % n
        r = L.TA_ForEachFunc(None, None)
        return r != ta.BAD_PARAM, 'missing callback gives %d' % r
    # one operation with an expected code
    H = NatHolder(L, f)
    N = 40
    c = configs(f)[0].opt
    ins = plain_inputs(f, c, N)
    arrs = [(C.c_double * N)(*x) for x in ins]
    outs = [(CT[t] * N)(*([777] * N)) for _, t in f.outs]
    a, op, no = H.steps(arrs, outs, c)
    if 'set' in s:
        for j, st in enumerate(a + no):
            if s['set'] >> j & 1: st()
    if s.get('then') or s.get('first'):
        for st in a + op + no: st()
    junk = (C.c_double * 64)(); big = (C.c_double * 64)()
    ji = (C.c_int * 64)()
    fake = (C.c_int * 256)(); fake[0] = s.get('magic', 0)
    fh = (C.c_void_p * 1)(C.addressof(fake))

    def dec(x):
        if x is None: return None
        if x == 'H': return H.h if s['op'][0] != 'TA_GetFuncHandle' else b'SMA'
        if x == 'P': return H.p
        if x == 'F': return C.cast(fh, C.c_void_p)
        if x == 'N': return C.cast(fake, C.c_void_p)
        if x == 'info' : return C.cast(big, C.c_void_p)
        if x in ('real', 'arr'): return C.cast(junk, C.c_void_p)
        if x == 'int': return C.cast(ji, C.c_void_p)
        if isinstance(x, list): return C.c_double(x[1])
        return C.c_int(x)
    r = getattr(L, s['op'][0])(*[dec(x) for x in s['op'][1:]])
    if r != s['want']:
        return True, '%s%r returns %d, expected %d' % (s['op'][0], tuple(s['op'][1:]), r, s['want'])
    if s.get('then'):
        b, n = C.c_int(-99), C.c_int(-99)
        L.TA_CallFunc(H.p, 0, N - 1, C.byref(b), C.byref(n))
        D = nat_batch(f, c, ins, 0, N - 1)
        if (b.value, n.value) != D[1:3]: return True, 'after the refused %s the call gives range %d, %d' % (s['op'][0], b.value, n.value)
        for x, y in zip(outs, D[3]):
            for j in range(len(y)):
                if not native.close(x[j], y[j]): return True, 'after the refused %s the call gives %r instead of %r' % (s['op'][0], x[j], y[j])
    return False, 'code %d' % r
