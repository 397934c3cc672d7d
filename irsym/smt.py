"""Translation of terms / diagrams to z3, in three interpretations of floating
point:
  UF   every FP operation and comparison uninterpreted: an equality proved here
       holds bit for bit for every IEEE input including NaN and infinities
  ORD  arithmetic uninterpreted, comparisons are a total order (no NaN)
  LIN  linear arithmetic over the reals, non-linear products / quotients opaque
  DIST like LIN, with products and reciprocals of conditional values split into their cases
  REAL arithmetic interpreted over the reals (no rounding, no NaN)
LIN and REAL are applied to terms already rewritten by norm.py.
"""
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import Node, T, UNDEF

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


class Tr:
    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.amemo = {}
        self.F = z3.DeclareSort('F') if mode == 'UF' else z3.RealSort()
        self.uf = {}
        self.consts = {}
        self.side = []          # side constraints (definitional)
        self.dist = mode == 'DIST'
        if self.dist:
            self.mode = 'LIN'
            self.mono_memo = {}
            self.budget = 20000
        self.vars = {}
        self.divs = []

    def f(self, name, n, rng=None, dom=None):
        k = (name, n)
        d = self.uf.get(k)
        if d is None:
            d = self.uf[k] = z3.Function(name, *([self.F if dom is None else dom] * n + [self.F if rng is None else rng]))
        return d

    def term(self, t):
        """iterative post-order translation"""
        if type(t) is Node:
            return self.diagram(t)
        if type(t) is not T:
            return self.leaf(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop(); continue
            pend = []
            if x.op == 'box':
                for y in self.diag_terms(x.args[0]):
                    if y.id not in self.memo:
                        pend.append(y)
            elif x.op == 'poly':
                for m, c in x.args:
                    for y in m:
                        if y.id not in self.memo:
                            pend.append(y)
            elif x.op not in ('const', 'var', 'bvar', 'undef'):
                for y in x.args:
                    if type(y) is T and y.id not in self.memo:
                        pend.append(y)
            if pend:
                stack.extend(pend)
                continue
            self.memo[x.id] = self.conv(x)
            stack.pop()
        return self.memo[t.id]

    def diag_terms(self, n):
        """terms needed to translate a diagram: atoms' and leaf terms"""
        out = []
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            if type(x) is Node:
                if x in seen:
                    continue
                seen.add(x)
                a = tm.ATOMS[x.var]
                if a.op == 'icmp':
                    out.extend(y for y in a.args if type(y) is T)
                elif a.op != 'bvar':
                    out.extend(a.args)
                st.append(x.hi); st.append(x.lo)
            elif type(x) is T:
                out.append(x)
        return out

    def cst(self, t):
        if self.mode == 'UF':
            c = self.consts.get(t.id)
            if c is None:
                c = self.consts[t.id] = z3.Const('c_%s_%s' % (repr(t.val), t.sort), self.F)
            return c
        v = t.val
        if v != v or v in (float('inf'), float('-inf')):
            return z3.Const('c_%r' % v, self.F)
        from .norm import nice
        fr = nice(v)
        return z3.Q(fr.numerator, fr.denominator)

    def conv(self, x):
        op = x.op
        M = self.memo
        if op == 'const':
            return self.cst(x)
        if op == 'var' or op == 'undef':
            if x.sort[0] == 'i':
                v = z3.BitVec(str(x.args), int(x.sort[1:]))
            else:
                v = z3.Const(str(x.args) if op == 'var' else 'undef_%d' % x.id, self.F)
            self.vars[str(x.args)] = v
            return v
        if op == 'box':
            return self.diagram(x.args[0])
        if op == 'poly':
            return self.poly(x)
        if x.sort[0] == 'i':
            return self.iconv(x)
        a = [M[y.id] if type(y) is T else y for y in x.args]
        if op in ('sitofp', 'uitofp'):
            if type(x.args[0]) is T:
                if self.mode in ('REAL', 'LIN'):
                    bv = a[0]
                    n = z3.BV2Int(bv, is_signed=(op == 'sitofp'))
                    return z3.ToReal(n)
                w = a[0].size()
                return z3.Function('%s%d' % (op, w), z3.BitVecSort(w), self.F)(a[0])
        if self.mode in ('REAL', 'LIN'):
            if op == 'inv':
                if self.dist:
                    return self.mono((x,))
                if self.mode == 'LIN':
                    return self.f('inv', 1)(*a)
                return 1 / a[0]
            if op == 'nmul':
                return a[0] * a[1] if self.mode == 'REAL' else self.f('prod', 2)(*a)
            if self.mode == 'LIN' and (op == 'fdiv' and x.args[1].op != 'const' or
                                       op == 'fmul' and x.args[0].op != 'const' and x.args[1].op != 'const'):
                return self.f(op, 2)(*a)
            if op == 'fadd': return a[0] + a[1]
            if op == 'fsub': return a[0] - a[1]
            if op == 'fmul': return a[0] * a[1]
            if op == 'fneg': return -a[0]
            if op in ('fpext', 'fptrunc'): return a[0]
            if op == 'fabs': return z3.If(a[0] < 0, -a[0], a[0])
            if op == 'fdiv':
                if x.args[1].op == 'const' and x.args[1].val not in (0.0,):
                    from .norm import nice
                    fr = nice(x.args[1].val)
                    return a[0] * z3.Q(fr.denominator, fr.numerator)
                return a[0] / a[1]
            if op == 'floor' or op == 'ceil':
                pass
        return self.f(op, len(a))(*a)

    def poly(self, x):
        s = []
        for m, c in x.args:
            k = z3.Q(c.numerator, c.denominator)
            if not m:
                s.append(k); continue
            if len(m) == 1:
                p = self.memo[m[0].id]
            elif self.mode == 'REAL':
                p = self.memo[m[0].id]
                for y in m[1:]:
                    p = p * self.memo[y.id]
            elif self.dist:
                p = self.mono(m)
            else:
                # opaque product: one uninterpreted symbol per degree
                p = self.f('prod', len(m))(*[self.memo[y.id] for y in m])
            s.append(k * p)
        if not s:
            return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def mono(self, m):
        """product of the factors m; the first conditional factor is split into its cases"""
        from . import norm
        k = tuple(y.id for y in m)
        r = self.mono_memo.get(k)
        if r is not None:
            return r
        pos = None
        for i, y in enumerate(m):
            b = y.args[0] if y.op == 'inv' else y
            if b.op == 'box' and self.budget > 0 and all(type(l) is T and l.sort[0] == 'f' for l in tm.leafset(b.args[0])):
                pos = i
                break
        if pos is None:
            if len(m) == 1:
                y = m[0]
                r = self.f('inv', 1)(self.term(y.args[0])) if y.op == 'inv' else self.term(y)
            else:
                r = self.f('prod', len(m))(*[self.term(y) for y in m])
        else:
            y = m[pos]
            rest = ((m[:pos] + m[pos + 1:], Fraction(1)),)
            memo = {}

            def leaf(l):
                self.budget -= 1
                p = norm.leafpoly(l)
                if y.op == 'inv':
                    c = norm.isconst(p)
                    if c is not None and c != 0:
                        p = norm.const(1 / c)
                    elif c == 0:
                        p = norm.opaque(tm.mk('inv', (norm.polyT(()),), 'f64'))
                    else:
                        c, p = norm.primitive(p)
                        p = norm.pscale(norm.opaque(tm.mk('inv', (norm.polyT(p),), 'f64')), 1 / c)
                q = norm.pmul(p, rest)
                return self.term(norm.polyT(q)) if q else z3.RealVal(0)

            def go(n):
                if type(n) is not Node:
                    return leaf(n)
                r = memo.get(n)
                if r is None:
                    r = memo[n] = z3.If(self.atom(n.var), go(n.hi), go(n.lo))
                return r
            r = go(b.args[0])
        self.mono_memo[k] = r
        return r

    def iconv(self, x):
        op = x.op
        w = int(x.sort[1:])
        if op in ('zext', 'sext', 'trunc'):
            a = self.memo[x.args[0].id]
            w0 = x.args[1]
            if op == 'zext': return z3.ZeroExt(w - w0, a)
            if op == 'sext': return z3.SignExt(w - w0, a)
            return z3.Extract(w - 1, 0, a)
        if op == 'fptosi':
            a = self.memo[x.args[0].id]
            if self.mode == 'REAL':
                # truncation toward zero
                n = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
                return z3.Int2BV(n, w)
            return z3.Function('fptosi%d' % w, self.F, z3.BitVecSort(w))(a)
        a, b = [self.memo[y.id] if type(y) is T else z3.BitVecVal(y, w) for y in x.args]
        return {'iadd': lambda: a + b, 'isub': lambda: a - b, 'imul': lambda: a * b, 'isdiv': lambda: a / b,
                'iudiv': lambda: z3.UDiv(a, b), 'isrem': lambda: z3.SRem(a, b), 'iurem': lambda: z3.URem(a, b),
                'iand': lambda: a & b, 'ior': lambda: a | b, 'ixor': lambda: a ^ b, 'ishl': lambda: a << b,
                'iashr': lambda: a >> b, 'ilshr': lambda: z3.LShR(a, b)}[op]()

    def leaf(self, v, like=None):
        if v is True or v is False:
            return z3.BoolVal(v)
        if type(v) is int:
            return z3.BitVecVal(v, like or 32)
        if v is UNDEF:
            return z3.BitVec('undef_leaf', 32)
        if type(v) is tuple:
            return z3.BitVecVal((v[0] << 40) + v[1], 64)
        return self.term(v)

    def atom(self, i):
        r = self.amemo.get(i)
        if r is not None:
            return r
        t = tm.ATOMS[i]
        op = t.op
        if op == 'bvar':
            r = z3.Bool(t.args)
        elif op == 'icmp':
            p, w, a, b = t.args
            a = self.term(a) if type(a) is T else z3.BitVecVal(a, w)
            b = self.term(b) if type(b) is T else z3.BitVecVal(b, w)
            r = a == b if p == 'eq' else a < b if p == 'slt' else z3.ULT(a, b)
        else:
            a = [self.term(y) for y in t.args]
            if op == 'isnan':
                r = z3.BoolVal(False) if self.mode != 'UF' else self.f('isnan', 1, z3.BoolSort())(*a)
            elif self.mode == 'UF':
                r = self.f('cmp_' + op, 2, z3.BoolSort())(*a)
            elif op == 'olt':
                r = a[0] < a[1]
            elif op == 'ole':
                r = a[0] <= a[1]
            else:
                r = a[0] == a[1]
        self.amemo[i] = r
        return r

    def diagram(self, n, width=None):
        if type(n) is not Node:
            return self.leaf(n, width)
        memo = {}
        # leaf width
        if width is None:
            for l in tm.leafset(n):
                if type(l) is T and l.sort[0] == 'i':
                    width = int(l.sort[1:])

        def go(x):
            if type(x) is not Node:
                return self.leaf(x, width)
            r = memo.get(x)
            if r is None:
                a = self.atom(x.var)
                h, l = x.hi, x.lo
                if h is True and l is False:
                    r = a
                elif h is False and l is True:
                    r = z3.Not(a)
                elif h is True:
                    r = z3.Or(a, go(l))
                elif h is False:
                    r = z3.And(z3.Not(a), go(l))
                elif l is True:
                    r = z3.Or(z3.Not(a), go(h))
                elif l is False:
                    r = z3.And(a, go(h))
                else:
                    r = z3.If(a, go(h), go(l))
                memo[x] = r
            return r
        return go(n)


def solve(assertions, timeout=5000, logic=None, want_model=False, tactic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set('timeout', timeout)
    for a in assertions:
        s.add(a)
    t = time.time()
    r = s.check()
    STATS['time'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    if want_model:
        return str(r), (s.model() if r == z3.sat else None)
    return str(r)


def base_side(b=None):
    """what is known of the symbolic counter offset K (terms.BASE)"""
    b = b or tm.BASE
    K = z3.BitVec('K', 64)
    n = b['hi'].bit_length()
    k = z3.BitVec('K_%d' % n, n)
    return [K == z3.ZeroExt(64 - n, k), z3.UGE(k, b['lo']), z3.ULE(k, b['hi'])] + ([z3.URem(k, z3.BitVecVal(b['mod'], n)) == 0] if b['mod'] > 1 else [])


def neq(tr, a, b, ty='double'):
    w = {'int': 32, 'ptr': 64, 'long': 64}.get(ty)
    return tr.diagram(a, w) != tr.diagram(b, w)
