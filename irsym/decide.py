"""Deciding equalities and assertions over symbolic results with the solver;
extraction of concrete inputs from models."""
import time, z3
from fractions import Fraction
from . import terms as tm, smt, norm
from .terms import Node, T, UNDEF

ROLE = {'inOpen': 'open', 'inHigh': 'high', 'inLow': 'low', 'inClose': 'close', 'inVolume': 'volume'}


def domain(tr, names, n, grid=None):
    """assumptions on the symbolic inputs of a candidate counterexample:
    well-formed bars with positive prices; optional integer grid"""
    out = optrange(tr, 100)

    def v(nm, i):
        return tr.vars.get('%s_%d' % (nm, i))
    for i in range(n):
        d = {}
        for nm in names:
            x = v(nm, i)
            if x is None:
                continue
            d[nm] = x
            out.append(x >= 1); out.append(x <= 1000)
            if grid:
                k = z3.Int('g_%s_%d' % (nm, i))
                out.append(x == z3.ToReal(k) / grid)
        lo, hi = d.get('inLow'), d.get('inHigh')
        if lo is not None and hi is not None:
            out.append(lo <= hi)
        for nm in ('inOpen', 'inClose'):
            if nm in d:
                if lo is not None: out.append(lo <= d[nm])
                if hi is not None: out.append(d[nm] <= hi)
        if 'inPeriods' in d:
            pass
    return out


def optrange(tr, cap=None):
    """the published ranges of symbolic options"""
    out = []
    for k, x in tr.vars.items():
        if k.startswith('opt_'):
            lo, hi = tm.RANGE[tm.var(k).id]
            if cap:
                lo, hi = max(lo, -cap), min(hi, cap)
            out += [x >= z3.RealVal(repr(lo)), x <= z3.RealVal(repr(hi))]
    return out


class Inputs(list):
    """input arrays of a counterexample; opts: values of the symbolic options"""
    opts = {}


def num(model, x):
    r = model.eval(x, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(20)
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    return 1.0


def inputs(tr, model, names, n, dflt=None):
    """concrete input arrays from a model; unconstrained entries get a value
    consistent with a well-formed bar"""
    out = {nm: [None] * n for nm in names}
    for nm in names:
        for i in range(n):
            x = tr.vars.get('%s_%d' % (nm, i))
            if x is not None and model is not None:
                out[nm][i] = num(model, x)
    for i in range(n):
        lo = out.get('inLow', [None] * n)[i]; hi = out.get('inHigh', [None] * n)[i]
        known = [out[nm][i] for nm in names if nm in ROLE and nm != 'inVolume' and out[nm][i] is not None]
        base = known[0] if known else 10.0 + (i * 7 % 5)
        for nm in names:
            if out[nm][i] is None:
                if nm == 'inHigh': out[nm][i] = max(known + [base])
                elif nm == 'inLow': out[nm][i] = min(known + [base])
                elif nm in ('inOpen', 'inClose'):
                    b = base
                    if lo is not None: b = max(b, lo)
                    if hi is not None: b = min(b, hi)
                    out[nm][i] = b
                else:
                    out[nm][i] = 10.0 + (i * 7 % 5)
    r = Inputs(out[nm] for nm in names)
    r.opts = {k[4:]: num(model, x) for k, x in tr.vars.items() if k.startswith('opt_')} if model is not None else {}
    return r


def size(t, cap=200000):
    """number of distinct terms / nodes"""
    seen = set(); st = [t]; n = 0
    while st:
        x = st.pop()
        k = (0, x) if type(x) is Node else (1, x.id) if type(x) is T else None
        if k is None or k in seen:
            continue
        seen.add(k); n += 1
        if n > cap:
            return n
        if type(x) is Node:
            a = tm.ATOMS[x.var]
            st.extend(y for y in a.args if type(y) is T) if a.op not in ('bvar',) else None
            st.append(x.hi); st.append(x.lo)
        elif x.op == 'box':
            st.append(x.args[0])
        elif x.op == 'poly':
            for m, c in x.args:
                st.extend(m)
        elif x.op not in ('const', 'var', 'bvar', 'undef'):
            st.extend(y for y in x.args if type(y) is T)
    return n


def known(x, ty):
    """an unwritten value stands for an arbitrary one"""
    if x is UNDEF or type(x) is Node and UNDEF in tm.leafset(x):
        u = tm.var('unwritten!') if ty == 'double' else -77777777
        return tm.map1(lambda v: u if v is UNDEF else v, x)
    return x


def narrow(tr, A, names, n, plains, ms=1500, free=1):
    """the solver could not decide A: ask it again with every bar but the last `free` ones (then every bar) fixed to given numbers.
    A model is only a candidate: it is replayed on the real code. -> (tr, model, formulas) or None"""
    dom = domain(tr, names, n)
    for pl in plains:
        for k in (free, 0):
            fx = []
            for nm, col in zip(names, pl):
                for i in range(n - k):
                    v = tr.vars.get('%s_%d' % (nm, i))
                    if v is not None and i < len(col):
                        fx.append(v == z3.RealVal(repr(float(col[i]))))
            F = A + fx + (dom if k else [])
            r, m = smt.solve(F, ms, want_model=True)
            if r == 'sat':
                return tr, m, F
    return None


class Eq:
    """decides  x = y  for all inputs satisfying `pre` (a BDD over atoms)"""

    def __init__(self, names, n, t_uf=1000, t_ord=2000, t_lin=4000, t_real=6000, deadline=None, wellformed=False, extra=None, dist=True):
        self.dist = dist
        self.names = names; self.n = n
        self.t = (t_uf, t_ord, t_lin, t_real)
        self.deadline = deadline
        self.extra = extra          # callable(tr) -> list of extra assumptions (REAL)
        self.wellformed = wellformed
        self.plains = []            # concrete series for narrowed queries
        self.slack = None           # fixed numbers are rounded: a difference above this counts (long series)

    def left(self, ms):
        if self.deadline is None:
            return ms
        return int(max(200, min(ms, (self.deadline - time.time()) * 1000)))

    def same_batch(self, items, R):
        """items structurally identical: one solver query for all"""
        if not items:
            return
        tr = smt.Tr('UF')
        items = [(l, known(x, ty), known(y, ty), ty) for l, x, y, ty in items]
        big = items
        r = smt.solve([z3.Or([smt.neq(tr, x, y, ty) for _, x, y, ty in big])], self.left(8000))
        for it in big:
            R.queries.append((it[0], 'UF(syntactic)', r))

    def decide(self, label, x, y, ty, R, pre=True):
        """-> ('unsat', None) or ('sat', (tr, model)) or ('unknown', None)"""
        def pz(tr):
            return [tr.diagram(pre)] if pre is not True else []
        x = known(x, ty); y = known(y, ty)
        if tm.same(x, y):
            self.same_batch([(label, x, y, ty)], R)
            return 'unsat', None
        if self.slack and ty == 'double':
            if all(type(v) is tm.T and v.op == 'const' for v in (x, y)) and abs(x.val - y.val) <= self.slack * max(1.0, abs(x.val)):
                d = z3.RealVal(repr(x.val)) - z3.RealVal(repr(y.val))
                e = z3.RealVal(repr(self.slack * max(1.0, abs(x.val))))
                r = smt.solve([z3.Or(d > e, -d > e)], self.left(1000))
                R.queries.append((label, 'REAL(fixed numbers, up to rounding)', r))
                return r, None
        for mode, t in (('UF', self.t[0]), ('ORD', self.t[1])):
            if self.deadline and time.time() > self.deadline:
                break
            tr = smt.Tr(mode)
            r = smt.solve(pz(tr) + [smt.neq(tr, x, y, ty)], self.left(t))
            if r == 'unsat':
                R.queries.append((label, mode, r))
                return r, None
        nx, ny = norm.ndiag(x), norm.ndiag(y)
        np_ = norm.ndiag(pre) if pre is not True else True
        if tm.same(nx, ny):
            tr = smt.Tr('LIN')
            r = smt.solve([smt.neq(tr, nx, ny, ty)], self.left(3000))
            R.queries.append((label, 'REAL(canonical polynomial form)', r))
            if r == 'unsat':
                return r, None

        if ty == 'double':
            ix = norm.indicator(x)
            iy = norm.indicator(y) if ix is not None else None
            if ix is not None and ix == iy:        # the same polynomial over the values and the 0/1 indicators of the conditions
                tr = smt.Tr('LIN')
                v = norm.polyT(ix)
                r = smt.solve([smt.neq(tr, v, v, ty)], self.left(3000))
                R.queries.append((label, 'REAL(canonical form with indicators)', r))
                if r == 'unsat':
                    return r, None

        def pn(tr):
            return [tr.diagram(np_)] if np_ is not True else []
        if not (self.deadline and time.time() > self.deadline):
            tr = smt.Tr('LIN')
            r = smt.solve(pn(tr) + [smt.neq(tr, nx, ny, ty)], self.left(self.t[2]))
            if r == 'unsat':
                R.queries.append((label, 'LIN', r))
                return r, None
        if self.dist and not (self.deadline and time.time() > self.deadline):
            tr = smt.Tr('DIST')
            try:
                r = smt.solve(pn(tr) + [smt.neq(tr, nx, ny, ty)], self.left(self.t[2]))
            except RecursionError:
                r = 'unknown'
            if r == 'unsat':
                R.queries.append((label, 'LIN(cases)', r))
                return r, None
        tr = smt.Tr('REAL')
        q = smt.neq(tr, nx, ny, ty)
        A = pn(tr)
        if self.extra: A += self.extra(tr)
        A += optrange(tr)
        A.append(q)
        dom = domain(tr, self.names, self.n)
        # non-degenerate: every divisor used is non zero
        r, m = smt.solve(A + dom, self.left(self.t[3]), want_model=True)
        if r == 'sat' and self.slack and ty == 'double':
            a, b = tr.diagram(nx), tr.diagram(ny)
            e = z3.RealVal(repr(self.slack)) * z3.If(a > 1, a, z3.If(a < -1, -a, z3.RealVal(1)))
            A[-1] = z3.Or(a - b > e, b - a > e)
            r, m = smt.solve(A + dom, self.left(self.t[3]), want_model=True)
            if r == 'unsat':
                R.queries.append((label, 'REAL(well-formed bars up to 1000, up to rounding)', r))
                return r, None
        if r == 'sat':
            R.queries.append((label, 'REAL', 'sat'))
            return r, (tr, m, A)
        if r == 'unsat' and not self.wellformed:
            # equal on well-formed positive bars; try all reals
            r2, m = smt.solve(A, self.left(self.t[3] // 2), want_model=True)
            if r2 == 'unsat':
                R.queries.append((label, 'REAL', 'unsat'))
                return r2, None
            if r2 == 'sat':
                R.queries.append((label, 'REAL(well-formed bars: unsat)', 'sat'))
                return r2, (tr, m, A)
        R.queries.append((label, 'REAL(well-formed bars)', r))
        if r == 'unknown' and self.plains:
            found = narrow(tr, A, self.names, self.n, self.plains, self.left(1500))
            if found:
                R.queries.append((label, 'REAL(one free bar)', 'sat'))
                return 'narrow', found
        return r, None

    def models(self, found, more=2):
        """concrete inputs: the model found, then grid / spread variants"""
        tr, m, A = found
        out = []
        out.append(inputs(tr, m, self.names, self.n))
        g = domain(tr, self.names, self.n, grid=4)
        r, m2 = smt.solve(A + g, self.left(4000), want_model=True)
        if r == 'sat':
            out.append(inputs(tr, m2, self.names, self.n))
        # all inputs of one kind pairwise different: avoids degenerate ties and zero divisors
        d = domain(tr, self.names, self.n)
        for nm in self.names:
            vs = [tr.vars.get('%s_%d' % (nm, i)) for i in range(self.n)]
            vs = [v for v in vs if v is not None]
            if len(vs) > 1:
                d.append(z3.Distinct(*vs))
        if 'inHigh' in self.names and 'inLow' in self.names:
            for i in range(self.n):
                a, b = tr.vars.get('inHigh_%d' % i), tr.vars.get('inLow_%d' % i)
                if a is not None and b is not None:
                    d.append(a > b)
        r, m3 = smt.solve(A + d, self.left(5000), want_model=True)
        if r == 'sat':
            out.append(inputs(tr, m3, self.names, self.n))
        return out


def assert_unsat(label, cond, R, method='BOOL', timeout=3000, names=(), n=0, numeric=False):
    """cond: BDD that must be unsatisfiable. returns (verdict, tr, model)"""
    if cond is False:
        R.queries.append((label, method, 'unsat'))
        smt.STATS['queries'] += 1; smt.STATS['unsat'] += 1
        # submitted as the constant false
        return 'unsat', None, None
    tr = smt.Tr('UF')
    r = smt.solve([tr.diagram(cond)], timeout)
    if r == 'unsat':
        R.queries.append((label, 'UF', r))
        return r, None, None
    tr = smt.Tr('ORD')
    r = smt.solve([tr.diagram(cond)], timeout)
    if r == 'unsat':
        R.queries.append((label, 'ORD', r))
        return r, None, None
    c = norm.ndiag(cond)
    tr = smt.Tr('REAL')
    A = [tr.diagram(c)]
    A += optrange(tr)
    r, m = smt.solve(A + domain(tr, names, n), timeout, want_model=True)
    if r != 'sat':
        r2, m2 = smt.solve(A, timeout, want_model=True)
        if not (r == 'unsat' and r2 == 'unknown'):
            r, m = r2, m2
    R.queries.append((label, 'REAL', r))
    return r, tr, m
