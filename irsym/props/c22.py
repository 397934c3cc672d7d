"""C22: the largest windows are computed like small ones (option arithmetic neither overflows nor narrows)."""
import re, time
import z3
from .common import *
from .. import smt
from ..llir import split_blocks

QUICK_BUDGET = 450
BOUNDS = ('Per function: every integer operation of the compiled lookback, batch, single-precision and stream entry points and of the internal functions they call whose operands come from the options only '
          '(through assignments, defaults, state fields holding them, further such operations, lookback calls, and counters that start at such a value and step down or up to it), for all option values of the published ranges at once: '
          'no signed overflow, no unsigned wrap, no narrowing that changes the value, no counter of 8 or 16 bits that runs up to an option beyond its range.')
OUTSIDE = 'Operations that involve the index range of a call or the data; floating-point rounding at large windows; unstable periods (C14).'
ASSUME = ['an option lies in its published range after validation (C08)', 'a lookback is between -1 and 1000000 plus an unstable period of at most 100000', 'a counter bounded by an option stays between -1 and one above it']
W = 32
LBMAX = 1100000
TOP = {}


def tasks(ctx):
    out = []
    for n, f in ctx.api.items():
        if any(o.kind == 'int' for o in f.opts):
            out.append({'key': n, 'f': n, 'timeout': 60 if ctx.tier == 'quick' else 300, 'w': 1})
    return out


class Val:
    """an integer that depends on the options only: z3 expression of `w` bits"""
    __slots__ = ('e', 'w', 'opt')

    def __init__(self, e, w, opt):
        self.e = e; self.w = w; self.opt = opt     # opt: does it involve an option


class Fun:
    """one function of the IR as {register: (op, text)}"""

    def __init__(self, lk, name):
        M = lk.module(lk.index[name]) if name in lk.index else None
        self.name = name
        _, params, body = M.funcs[name]
        self.params = re.findall(r'%[-\w.]+(?=\s*[,)]|\s*$)', params)
        self.ptypes = [p.strip().split()[0] for p in split_args(params.rsplit(')', 1)[0])]
        self.defs = {}; self.stores = []; self.rets = []; self.calls = []; self.order = []
        for bn, ins in split_blocks(body):
            for s in ins:
                m = re.match(r'(%[-\w.]+) = (.*)$', s)
                if m:
                    self.defs[m.group(1)] = m.group(2)
                    self.order.append((m.group(1), m.group(2)))
                    t = m.group(2)
                else:
                    t = s
                    self.order.append((None, s))
                if t.startswith('store i'):
                    self.stores.append(t)
                elif t.startswith('ret i'):
                    self.rets.append(t.split()[-1])


def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '([{<': d += 1
        if ch in ')]}>': d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


class An:
    def __init__(self, lk, f, R, api):
        self.api = set(api)      # a public function called inside checks its own options and has its own task
        self.lk = lk; self.f = f; self.R = R
        self.side = []; self.obl = []; self.nf = 0
        self.fields = {}       # (struct, index) -> [Val or None]
        self.funs = {}; self.done = set(); self.enc = set()
        self.opts = {}
        for o in f.opts:
            if o.kind == 'real':
                continue
            v = z3.BitVec(o.name, W)
            lo, hi = (o.lo, o.hi) if o.lo is not None else (0, 9)
            self.side += [v >= lo, v <= hi]
            self.opts[o.name] = (v, lo, hi)
        self.top = max([hi for _, _, hi in self.opts.values()] + [1])

    def fresh(self, w, lo, hi, opt=True):
        self.nf += 1
        v = z3.BitVec('t%d' % self.nf, w)
        self.side += [v >= lo, v <= hi]
        return Val(v, w, opt)

    def fun(self, name):
        if name not in self.funs:
            self.funs[name] = Fun(self.lk, name) if name in self.lk.index else None
        return self.funs[name]

    def entry(self, name, after, count):
        """analyse an entry point whose options start at parameter `after`"""
        F = self.fun(name)
        if F is None:
            return
        env = {}
        k = after
        for o in self.f.opts:
            if k < len(F.params) and F.ptypes[k] == 'i32' and o.kind != 'real':
                v, lo, hi = self.opts[o.name]
                env[F.params[k]] = Val(v, W, True)
            k += 1
        self.analyse(F, env, name)

    def analyse(self, F, env, where, depth=0):
        self.enc.add(F.name)
        memo = dict(env)
        params = set(env)
        busy = set()

        def lit(tok, w):
            if re.match(r'-?\d+$', tok):
                return Val(z3.BitVecVal(int(tok), w), w, False)
            return None

        def val(tok, w):
            tok = tok.strip().rstrip(',')
            if tok[:1] != '%':
                return lit(tok, w)
            if tok in memo:
                return memo[tok]
            if tok in busy or tok not in F.defs or len(busy) > 400:
                return None
            busy.add(tok)
            r = calc(tok, F.defs[tok])
            busy.discard(tok)
            memo[tok] = r
            return r

        def calc(reg, s):
            m = re.match(r'(add|sub|mul|shl|ashr|lshr|sdiv|udiv|srem|urem|and|or|xor) ((?:nsw |nuw |exact |disjoint )*)i(\d+) (\S+), (\S+)$', s)
            if m:
                op, fl, w, a, b = m.groups(); w = int(w)
                x = val(a, w); y = val(b, w)
                if x is None or y is None or w == 1:
                    return None
                if op in ('sdiv', 'udiv', 'srem', 'urem') and not lit(b, w):
                    return None
                A, B = x.e, y.e
                e = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'shl': lambda: A << B, 'ashr': lambda: A >> B, 'lshr': lambda: z3.LShR(A, B),
                     'sdiv': lambda: A / B, 'udiv': lambda: z3.UDiv(A, B), 'srem': lambda: z3.SRem(A, B), 'urem': lambda: z3.URem(A, B),
                     'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B}[op]()
                opt = x.opt or y.opt
                if opt and 'nsw' in fl and op in ('add', 'sub', 'mul'):
                    g = w + 2 if op != 'mul' else 2 * w
                    A2, B2 = z3.SignExt(g - w, A), z3.SignExt(g - w, B)
                    wide = A2 + B2 if op == 'add' else A2 - B2 if op == 'sub' else A2 * B2
                    self.obl.append((where, '%s: %s i%d of %s overflows' % (F.name, op, w, reg), wide != z3.SignExt(g - w, e)))
                if opt and 'nsw' not in fl and op in ('add', 'sub', 'mul'):      # unsigned: neither reading of the operands gives the mathematical value
                    g = w + 2 if op != 'mul' else 2 * w
                    bad = True
                    for ext in (z3.SignExt, z3.ZeroExt):
                        A2, B2 = ext(g - w, A), ext(g - w, B)
                        wide = A2 + B2 if op == 'add' else A2 - B2 if op == 'sub' else A2 * B2
                        bad = z3.And(bad, wide != ext(g - w, e))
                    self.obl.append((where, '%s: unsigned %s i%d of %s wraps' % (F.name, op, w, reg), bad))
                return Val(e, w, opt)
            m = re.match(r'(sext|zext|trunc) (?:nneg |nuw |nsw )*i(\d+) (\S+) to i(\d+)', s)
            if m:
                op, w0, a, w1 = m.groups(); w0 = int(w0); w1 = int(w1)
                x = val(a, w0)
                if x is None or w0 == 1 or w1 == 1:
                    return None
                if op == 'sext': return Val(z3.SignExt(w1 - w0, x.e), w1, x.opt)
                if op == 'zext': return Val(z3.ZeroExt(w1 - w0, x.e), w1, x.opt)
                e = z3.Extract(w1 - 1, 0, x.e)
                if x.opt:
                    self.obl.append((where, '%s: narrowing to i%d at %s changes the value' % (F.name, w1, reg),
                                     z3.And(z3.SignExt(w0 - w1, e) != x.e, z3.ZeroExt(w0 - w1, e) != x.e)))
                return Val(e, w1, x.opt)
            m = re.match(r'select i1 \S+, i(\d+) (\S+), i\d+ (\S+)', s)
            if m:
                w = int(m.group(1))
                return join([val(m.group(2), w), val(m.group(3), w)], w)
            m = re.match(r'phi i(\d+) (.*)$', s)
            if m:
                w = int(m.group(1))
                if w == 1:
                    return None
                inc = re.findall(r'\[ (\S+), \S+ \]', m.group(2))
                out = []; loop = False
                for t in inc:
                    if steps(t, reg):
                        loop = True; continue
                    out.append(val(t, w))
                if loop:
                    if w < 32 or any(x is None for x in out) or not any(x.opt for x in out):
                        return None
                    return self.fresh(w, -1, LBMAX + 1 if w > 32 else self.top + 1)
                return join(out, w)
            m = re.match(r'load i(\d+), ptr (%\S+)', s)
            if m:
                k = field(m.group(2).rstrip(','))
                if k is None or k not in self.fields:
                    return None
                return join(self.fields[k], int(m.group(1)))
            m = re.match(r'(?:tail )?call i32 @(TA_\w+_Lookback)\((.*)\)', s)
            if m:
                args = [val(a.split()[-1], 32) if re.match(r'\s*i32', a) else None for a in split_args(m.group(2))]
                return self.fresh(32, -1, LBMAX, any(x is not None and x.opt for x in args))
            return None

        def steps(t, reg, d=0):
            """is t the phi `reg` plus a constant"""
            if t == reg:
                return True
            s = F.defs.get(t, '')
            m = re.match(r'(?:add|sub) (?:nsw |nuw )*i\d+ (\S+), (-?\d+)$', s) or re.match(r'(?:sext|zext|trunc) (?:nneg |nuw |nsw )*i\d+ (\S+) to ()', s)
            if m and d < 6:
                return steps(m.group(1), reg, d + 1)
            return False

        def join(vs, w):
            if not vs or any(v is None or v.w != w for v in vs):
                return None
            # a default stands for the option itself, which takes every value of the range
            syms = [v for v in vs if v.opt]
            cs = [v for v in vs if not v.opt and z3.is_bv_value(v.e)]
            if len(cs) == len(vs):
                return vs[0] if len({v.e.as_signed_long() for v in vs}) == 1 else None
            base = syms[0].e if syms else None
            if syms and all(z3.eq(v.e, base) for v in syms) and len(cs) + len(syms) == len(vs):
                for nm, (v, lo, hi) in self.opts.items():
                    if z3.eq(v, base) and all(lo <= c.e.as_signed_long() <= hi for c in cs):
                        return syms[0]
            e = vs[0].e
            for v in vs[1:]:
                self.nf += 1
                e = z3.If(z3.Bool('b%d' % self.nf), v.e, e)
            return Val(e, w, any(v.opt for v in vs))

        def field(ptr):
            s = F.defs.get(ptr, '')
            m = re.match(r'getelementptr (?:inbounds )?(?:nuw )?(%\S+), ptr (\S+), i32 0, i32 (\d+)$', s)
            return (m.group(1), int(m.group(3))) if m else None

        def counter(tok):
            """(bits, signed, register) when tok is a counter of less than 32 bits, widened"""
            m = re.match(r'(sext|zext) (?:nneg )?i(\d+) (%\S+) to i32', F.defs.get(tok, ''))
            if not m or int(m.group(2)) not in (8, 16):
                return None
            q = m.group(3)
            for p in [q] + re.findall(r'%[-\w.]+', F.defs.get(q, '')):
                d = F.defs.get(p, '')
                if d.startswith('phi i') and any(steps(t, p) and t != p for t in re.findall(r'\[ (\S+), \S+ \]', d)):
                    return int(m.group(2)), m.group(1) == 'sext', p
            return None

        for reg, s in F.order:
            if reg is not None:
                val(reg, 0)
                m = re.match(r'icmp \w+ i32 (\S+), (\S+)$', s)
                if m:
                    for a, b in (m.groups(), m.groups()[::-1]):
                        k = counter(a)
                        x = val(b, 32) if k else None
                        if x is not None and x.opt:
                            self.obl.append((where, '%s: the %d-bit counter %s runs up to an option beyond its range' % (F.name, k[0], k[2]), x.e > (1 << k[0]) - 1))
                m = re.match(r'phi i(8|16) (.*)$', s)
                if m and self.opts and any(steps(t, reg) and t != reg for t in re.findall(r'\[ (\S+), \S+ \]', m.group(2))):
                    self.obl.append((where, '%s: the %s-bit counter %s may run up to an option beyond its range' % (F.name, m.group(1), reg),
                                     z3.Or([v > 1 << int(m.group(1)) for v, lo, hi in self.opts.values()])))
                m = re.match(r'(?:sitofp|uitofp) (?:nneg )?i(\d+) (\S+) to float', s)
                if m:
                    x = val(m.group(2), int(m.group(1)))
                    if x is not None and x.opt:
                        self.obl.append((where, '%s: %s is not exact as a float' % (F.name, reg), z3.Or(x.e > 1 << 24, x.e < -(1 << 24)) if x.w > 25 else z3.BoolVal(False)))
            m = re.search(r'call (?:\w+ )*?[\w]+ @(TA_\w+)\((.*)\)', s)
            if m and depth < 6 and not m.group(1).endswith('_Lookback'):
                g = self.fun(m.group(1))
                if g is not None and m.group(1) not in EXTERNAL and re.sub('^TA_(S_)?|_(StateInit|State|BatchState|StateFree)$', '', m.group(1)) not in self.api:
                    e2 = {}
                    for p, ty, a in zip(g.params, g.ptypes, split_args(m.group(2))):
                        if ty == 'i32':
                            x = val(a.split()[-1], 32)
                            if x is not None and x.opt:
                                e2[p] = x
                    key = (m.group(1), tuple(sorted((p, str(x.e)) for p, x in e2.items())))
                    if e2 and key not in self.done:
                        self.done.add(key)
                        self.analyse(g, e2, where, depth + 1)
        # what the state fields hold
        for t in F.stores:
            m = re.match(r'store i(\d+) (\S+), ptr (\S+?)(?:,|$)', t)
            k = field(m.group(3)) if m else None
            if k is not None:
                v = val(m.group(2), int(m.group(1)))
                L = self.fields.setdefault(k, [])
                if v is None or not v.opt:
                    if v is None or not z3.is_bv_value(v.e):
                        L.append(None)
                    else:
                        L.append(v)
                elif not any(x is not None and z3.eq(x.e, v.e) for x in L):
                    L.append(v)


EXTERNAL = ('TA_SetRetCodeInfo',)


def run(task, ctx, R):
    f = ctx.api[task['f']]
    n = f.name
    A = An(ctx.lk, f, R, ctx.api)
    A.entry('TA_%s_Lookback' % n, 0, 0)
    A.entry('TA_' + n, 2 + len(f.ins), 0)
    A.entry('TA_S_' + n, 2 + len(f.ins), 0)
    if f.has_state:
        A.entry('TA_%s_StateInit' % n, 1, 0)
        for fn in ('State', 'BatchState'):      # fields filled by the first bars are known in the second round
            F = A.fun('TA_%s_%s' % (n, fn))
            if F:
                A.analyse(F, {}, 'TA_%s_%s' % (n, fn))
    R.encoded |= A.enc
    R.bounds = '%s in %s; %d operations on options' % (', '.join(A.opts), ', '.join('%d..%d' % x[1:] for x in A.opts.values()), len(A.obl))
    R.steps = sum(len(x.order) for x in A.funs.values() if x); R.states = 1
    seen = set()
    if smt.solve(A.side, 8000) != 'sat':
        R.status = 'undecided'; R.note = 'the assumptions on the options contradict each other'
        return
    for where, text, cond in A.obl:
        if str((text, where)) in seen:
            continue
        seen.add(str((text, where)))
        R.reached += 1
        v = smt.solve(A.side + [cond], 8000)
        if v == 'unsat':
            R.queries.append(('%s: no %s' % (where, text), 'BV', v)); continue
        if v != 'sat':
            R.queries.append(('%s: %s' % (where, text), 'BV', v))
            R.status = 'undecided'; R.note = text
            continue
        R.queries.append(('%s: %s' % (where, text), 'BV', 'sat'))
        m = None
        for cap in (600, 3000, 20000, 50000, 70000, None):      # small windows are confirmed faster
            r, m = smt.solve(A.side + [cond] + ([v <= cap for v, lo, hi in A.opts.values() if lo < cap] if cap else []), 4000, want_model=True)
            if r == 'sat':
                break
        if m is None:
            R.status = 'undecided'; R.note = text
            continue
        o = {}
        for p in f.opts:
            if p.kind == 'real':
                o[p.name] = base_real(f, p.name)
            else:
                o[p.name] = m.eval(A.opts[p.name][0], model_completion=True).as_signed_long()
        cfg = {'opt': o, 'unst': {}, 'compat': 0, 'candle': None, 'name': 'opts'}
        sc = {'f': n, 'cfg': cfg}
        R.cands.append({'site': n, 'text': '%s, options %s' % (text, {k: x for k, x in o.items() if k in A.opts}), 'scens': [dict(sc, build='ubsan'), dict(sc, build='plain', part='batch', hang=True), dict(sc, build='ref')]})
        if len(R.cands) >= 4:
            break
    if not seen:
        decide.assert_unsat('no integer operation on options', False, R); R.reached = 1


def base_real(f, nm):
    from ..meta import base
    return base(f, [3])[nm]


def replay(s):
    """all entry points with these options over a window and a few bars; under UBSan an overflow ends the process"""
    from ..native import setup, lib, optargs, CT
    import ctypes as C
    api = ta.parse_api()
    f = api[s['f']]; c = s['cfg']['opt']
    setup(s['cfg'])
    L = lib()
    lb = getattr(L, 'TA_%s_Lookback' % f.name)(*optargs(f, c))
    N = lb + 3
    if not 0 < N < 3000000:
        return True, 'lookback %d' % lb
    pl = [x for x in plain_inputs(f, c, 997)] if f.name != 'MAVP' else [[10.0 + i % 7 for i in range(997)], [float(c['optInMinPeriod'])] * 997]
    cols = [(x * (N // len(x) + 1))[:N] for x in pl]
    x = nat_batch(f, c, cols, 0, N - 1)
    y = nat_batch(f, c, cols, 0, N - 1, single=True)
    if x[0] != 0 or x[2] != 3:
        return True, 'code %d, %d elements' % (x[0], x[2])
    arrs = [(C.c_double * N)(*v) for v in cols]
    rows = []
    if f.has_state and not s.get('part') and f.name != 'MAVP':      # (MAVP's stream: known finding of C01)
        st = native.Stream(f, c)
        outs = [(CT[t] * N)() for _, t in f.outs]
        b = C.c_int(); k = C.c_int()
        r = getattr(L, 'TA_%s_BatchState' % f.name)(st.p, C.c_int(0), C.c_int(N - 1), *arrs, C.byref(b), C.byref(k), *outs)
        if r != 0:
            return True, 'stream: code %d' % r
        rows.append(('the stream', [list(o)[lb:N] for o in outs]))
    rows.append(('single precision', y[3]))
    if hasattr(L, 'REF_' + f.name) and N < 130000:
        outs = [(CT[t] * N)() for _, t in f.outs]
        import threading
        threading.stack_size(1 << 28)
        t = threading.Thread(target=getattr(L, 'REF_' + f.name), args=(C.c_int(N), *arrs, *optargs(f, c), *outs))
        t.start(); t.join()
        rows.append(('the definition', [list(o)[lb:N] for o in outs]))
    for w, o in rows:
        for (nm, ty), p, q in zip(f.outs, x[3], o):
            for k in range(3):
                if not native.close(p[k], q[k], 1e-4):
                    return True, '%s of bar %d is %r, of %s %r (options %s)' % (nm, lb + k, p[k], w, q[k], c)
    return False, 'no difference and no overflow with %s' % c
