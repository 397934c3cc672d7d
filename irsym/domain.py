"""Deciding bounds and definedness of outputs over well-formed series.

Comparisons of rational expressions are cleared of their divisors (n/d < 0 becomes
n < 0 < d or d < 0 < n), products stay opaque at first; quotients and conditional
values inside an output get lemma bounds, each decided by the solver on its own,
before the claim itself is decided with them."""
import time
import z3
from fractions import Fraction
from . import terms as tm, smt, norm, decide
from .terms import Node, T, UNDEF

EPS = Fraction(1, 10 ** 6)


def hasinv(p):
    return any(y.op == 'inv' for m, _ in p for y in m)


def rat(p, depth=0):
    """polynomial with reciprocals -> (numerator polynomial, {denominator factor id: [poly, power]})"""
    parts = []
    for m, c in p:
        num = norm.const(Fraction(c)); den = {}
        for y in m:
            if y.op == 'inv':
                q = y.args[0]
                q = q.args if q.op == 'poly' else norm.norm(q)
                qn, qd = rat(q, depth + 1) if hasinv(q) and depth < 4 else (q, {})
                k, qn = norm.primitive(qn)
                num = norm.pscale(num, 1 / k)
                d = norm.polyT(qn)
                e = den.setdefault(d.id, [qn, 0]); e[1] += 1
                for i, (f, n) in qd.items():
                    e = den.setdefault(i, [f, 0]); e[1] -= n
            else:
                num = norm.pmul(num, norm.opaque(y))
        parts.append((num, den))
    lcm = {}
    for num, den in parts:
        for i, (f, n) in den.items():
            if n > 0:
                e = lcm.setdefault(i, [f, 0]); e[1] = max(e[1], n)
    tot = ()
    for num, den in parts:
        for i in set(lcm) | set(den):
            f = (lcm.get(i) or den[i])[0]
            k = (lcm[i][1] if i in lcm else 0) - (den[i][1] if i in den else 0)
            for _ in range(k):
                num = norm.pmul(num, f)
        tot = norm.padd(tot, num)
    return tot, lcm


class RTr(smt.Tr):
    """mode LIN (products opaque) or REAL, comparisons cleared of divisors"""

    def __init__(self, mode='LIN', abstract=False):
        super().__init__(mode)
        self.abstract = abstract
        self.cmemo = {}
        self.posvars = False
        self.cases = 0
        self.end = None

    def conv(self, x):
        op = x.op
        if self.abstract and op in ('box', 'inv'):
            return z3.Real('abs_%d' % x.id)
        r = super().conv(x)
        if op in ('sin', 'cos'):
            self.side += [r <= 1, r >= -1]
        elif op == 'exp':
            self.side.append(r > 0)
        elif op == 'sqrt':
            a = self.memo[x.args[0].id]
            self.side += [r >= 0, z3.Implies(a > 0, r > 0)]
            self.signs(x.args[0], r, lambda lt, gt: z3.Implies(gt, r > 0))
        elif op == 'atan':
            a = self.memo[x.args[0].id]
            self.signs(x.args[0], r, lambda lt, gt: z3.And(z3.Implies(gt, r > 0), z3.Implies(lt, r < 0)))
            self.side += [(r > 0) == (a > 0), (r < 0) == (a < 0), r <= z3.Q(15707963268, 10 ** 10), r >= -z3.Q(15707963268, 10 ** 10)]
        elif op == 'poly' and self.mode == 'LIN' and self.posvars:
            for m, c in x.args:
                if len(m) > 1 and all(y.op == 'var' for y in m):
                    self.side.append(self.f('prod', len(m))(*[self.memo[y.id] for y in m]) >= 1)
        return r

    def signs(self, a, r, fact):
        p = a.args if a.op == 'poly' else norm.opaque(a)
        if self.mode == 'LIN' and hasinv(p):
            lt, gt, ok = self.cleared(p)
            self.side.append(z3.Implies(ok, fact(lt, gt)))

    def split(self, p):
        """a factor of p whose cases hide a reciprocal: (kind, factor) or None"""
        if self.abstract:
            return None
        for m, c in p:
            for y in m:
                if y.op == 'fabs' and hasinv(norm.leafpoly(y.args[0])) or y.op == 'box' and any(type(l) is T and l.sort[0] == 'f' and hasinv(norm.leafpoly(l)) for l in tm.leafset(y.args[0])):
                    return y
        return None

    def subst(self, p, y, q):
        """p with the factor y replaced by the polynomial q"""
        out = ()
        for m, c in p:
            k = sum(1 for f in m if f is y)
            if not k:
                out = norm.padd(out, ((m, c),))
                continue
            t = ((tuple(f for f in m if f is not y), c),)
            for _ in range(k):
                t = norm.pmul(t, q)
            out = norm.padd(out, t)
        return out

    def cleared(self, p):
        """z3 sign tests of the polynomial p: (p < 0, p > 0, divisors non zero)"""
        k = norm.polyT(p).id
        r = self.cmemo.get(k)
        if r is None and self.cases > 0 and (self.end is None or time.time() < self.end):
            y = self.split(p)
            if y is not None:
                def case(c, a, b):
                    return tuple(z3.If(c, u, v) for u, v in zip(a, b))
                if y.op == 'fabs':
                    self.cases -= 1
                    q = norm.leafpoly(y.args[0])
                    lt, gt, ok = self.cleared(q)
                    r = case(lt, self.cleared(self.subst(p, y, norm.pscale(q, -1))), self.cleared(self.subst(p, y, q)))
                    r = (z3.And(ok, r[0]), z3.And(ok, r[1]), z3.And(ok, r[2]))
                else:
                    memo = {}

                    def go(n):
                        x = memo.get(n)
                        if x is None:
                            if type(n) is Node:
                                x = case(self.atom(n.var), go(n.hi), go(n.lo))
                            else:
                                self.cases -= 1
                                x = self.cleared(self.subst(p, y, norm.leafpoly(n)))
                            memo[n] = x
                        return x
                    r = go(y.args[0])
                self.cmemo[k] = r
        if r is None:
            n, den = rat(p)
            x = self.term(norm.polyT(n)) if n else z3.RealVal(0)
            ok = []; s = z3.BoolVal(False)
            for f, pw in den.values():
                d = self.term(norm.polyT(f))
                ok.append(d != 0)
                if pw % 2:
                    s = z3.Xor(s, d < 0)
            s = z3.simplify(s)
            ok = z3.And(ok) if ok else z3.BoolVal(True)
            r = self.cmemo[k] = (z3.And(ok, z3.If(s, x > 0, x < 0)), z3.And(ok, z3.If(s, x < 0, x > 0)), ok)
        return r

    def atom(self, i):
        r = self.amemo.get(i)
        if r is not None:
            return r
        t = tm.ATOMS[i]
        if t.op in ('olt', 'ole', 'oeq'):
            p = norm.padd(norm.norm(t.args[0]), norm.norm(t.args[1]), -1)
            if hasinv(p):
                lt, gt, ok = self.cleared(p)
                r = lt if t.op == 'olt' else z3.Not(gt) if t.op == 'ole' else z3.And(z3.Not(lt), z3.Not(gt))
                if not self.abstract:
                    v = self.term(norm.polyT(p))
                    if self.mode == 'LIN':
                        self.side.append(z3.Implies(ok, r == (v < 0 if t.op == 'olt' else v <= 0 if t.op == 'ole' else v == 0)))
                self.amemo[i] = r
                return r
        return super().atom(i)


def subterms(d, want):
    """raw terms satisfying `want`, inner ones first, each with the conditions (list of BDDs) of its evaluations; nested boxes are entered"""
    order = []; conds = {}
    done = set()

    def term(t):
        if t.id in done:
            return
        done.add(t.id)
        st = [(t, False)]
        seen = {t.id}
        while st:
            x, out = st.pop()
            if out:
                if want(x) and x.id not in conds:
                    conds[x.id] = []
                    order.append(x)
                continue
            st.append((x, True))
            if x.op == 'box':
                diag(x.args[0])
                continue
            if x.op in ('const', 'var', 'bvar', 'undef', 'poly'):
                continue
            for y in x.args:
                if type(y) is T and y.id not in done:
                    done.add(y.id)
                    st.append((y, False))

    def diag(n):
        if type(n) is not Node:
            if type(n) is T:
                term(n)
            return
        k = id(n)
        if k in done:
            return
        done.add(k)
        a = tm.ATOMS[n.var]
        if a.op in ('olt', 'ole', 'oeq'):
            for y in a.args:
                if type(y) is T:
                    term(y)
        diag(n.hi); diag(n.lo)
    diag(d)
    return order


class Sub:
    """replaces raw terms by fresh variables"""

    def __init__(self, m):
        self.m = m          # term id -> variable
        self.t = {}; self.d = {}; self.used = set()

    def term(self, t):
        m = self.m; memo = self.t
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop(); continue
            if x.id in m:
                memo[x.id] = m[x.id]; self.used.add(x.id); st.pop(); continue
            if x.op in ('const', 'var', 'bvar', 'undef', 'poly') or x.sort[0] == 'i':
                memo[x.id] = x; st.pop(); continue
            if x.op == 'box':
                st.pop()
                d = self.diag(x.args[0])
                memo[x.id] = tm.mk('box', (d,), x.sort) if type(d) is Node else d
                continue
            pend = [y for y in x.args if type(y) is T and y.id not in memo]
            if pend:
                st.extend(pend); continue
            memo[x.id] = tm.mk(x.op, tuple(memo[y.id] if type(y) is T else y for y in x.args), x.sort)
            st.pop()
        return memo[t.id]

    def diag(self, n):
        if type(n) is not Node:
            return self.term(n) if type(n) is T else n
        r = self.d.get(n)
        if r is None:
            a = tm.ATOMS[n.var]
            if a.op in ('olt', 'ole', 'oeq'):
                c = tm.atom(tm.mk(a.op, tuple(self.term(y) for y in a.args), 'bool'))
            else:
                c = tm.node(n.var, True, False)
            r = self.d[n] = tm.ite(c, self.diag(n.hi), self.diag(n.lo))
        return r


def cand(t):
    return t.op == 'box' and nonlin(t) or t.op == 'fdiv' and t.args[1].op != 'const' or t.op == 'fmul' and t.args[0].op != 'const' and t.args[1].op != 'const'


def nested(d, depth, m, skip):
    """the outermost candidate sub-terms below `depth` levels of candidates"""
    out = {}
    level = [d]
    for k in range(depth + 1):
        nxt = {}
        seen = set()
        st = list(level)
        while st:
            x = st.pop()
            if type(x) is Node:
                if x in seen:
                    continue
                seen.add(x)
                a = tm.ATOMS[x.var]
                if a.op in ('olt', 'ole', 'oeq'):
                    st.extend(y for y in a.args if type(y) is T)
                st += [x.hi, x.lo]
                continue
            if type(x) is not T or x.id in seen or x.op in ('const', 'var', 'bvar', 'undef', 'poly'):
                continue
            seen.add(x.id)
            if x.id in m:
                continue
            if x is not skip and cand(x):
                nxt[x.id] = x
                continue
            st.extend([x.args[0]] if x.op == 'box' else [y for y in x.args if type(y) is T])
        if k == depth:
            return list(nxt.values())
        # next level: inside the candidates found
        level = []
        for x in nxt.values():
            level.extend([x.args[0]] if x.op == 'box' else [y for y in x.args if type(y) is T])
    return []


class Prover:
    def __init__(self, names, n, R, dom=None, end=None, cands=()):
        self.names = names; self.n = n; self.R = R
        self.dom = dom or (lambda tr: decide.domain(tr, names, n))
        self.lemmas = []            # (raw term, lo, hi) with lo/hi raw terms or None
        self.cands = cands          # candidate bounds for lemmas
        self.end = end
        self.cond = {}; self.quick = {}

    def left(self, ms):
        if self.end is None:
            return ms
        return int(max(100, min(ms, (self.end - time.time()) * 1000)))

    def late(self):
        return self.end is not None and time.time() > self.end

    # bad(x, y): x exceeds y by more than eps, as a z3 formula over a normalised diagram of x - y
    def bad(self, tr, d, eps):
        e = norm.const(eps)

        def leaf(l):
            if type(l) is bool:
                return z3.BoolVal(l)
            if type(l) is not T:
                return z3.BoolVal(False)
            p = norm.padd(norm.leafpoly(l), e, -1)
            return tr.cleared(p)[1]
        memo = {}

        def go(n):
            if type(n) is not Node:
                return leaf(n)
            r = memo.get(n)
            if r is None:
                r = memo[n] = z3.If(tr.atom(n.var), go(n.hi), go(n.lo))
            return r
        return go(d)

    def assume(self, tr):
        out = []
        for t, lo, hi in self.lemmas:
            v = tr.term(norm.polyT(norm.norm(t)))
            if lo is not None: out.append(v >= tr.term(norm.polyT(norm.norm(lo))))
            if hi is not None: out.append(v <= tr.term(norm.polyT(norm.norm(hi))))
        return out

    def ask(self, mode, d, eps, pre, lem, ms, abstract=False, want=False, cases=0):
        tr = RTr(mode, abstract)
        tr.cases = cases
        tr.end = time.time() + ms / 1000
        tr.posvars = True
        f = [self.bad(tr, d, eps)]
        if pre is not True:
            f.append(tr.diagram(norm.ndiag(pre)))
        if lem:
            f += self.assume(tr)
        f += tr.side
        f += self.dom(tr)
        f += tr.side
        try:
            r = smt.solve(f, self.left(ms), want_model=want)
        except RecursionError:
            r = ('unknown', None) if want else 'unknown'
        return (r[0], r[1], tr, f) if want else r

    def formulas(self, x, y):
        """(translator, formulas) saying x > y"""
        tr = RTr('REAL')
        f = [self.bad(tr, norm.ndiag(tm.fbin('fsub', x, y)), EPS)]
        f += self.dom(tr)
        return tr, f + tr.side

    def prove(self, x, y, pre=True, eps=Fraction(0), ms=1500, lem=True, real=False, cheap=False):
        """x <= y + eps: 'unsat' when it always holds"""
        d = norm.ndiag(tm.fbin('fsub', x, y))
        if type(d) is T and d.op == 'poly' and norm.isconst(d.args) is not None:
            return 'unsat' if norm.isconst(d.args) <= eps else 'sat'
        nl = nlpoly(d)
        if nl and pre is True:
            for depth in (1, 2) if cheap else (1, 2, 3):
                if self.late():
                    return 'unknown'
                if self.cut(x, y, 120 if cheap else 250, eps, depth)[0] == 'unsat':
                    return 'unsat'
        if cheap and nl:
            return 'unknown'
        r = self.ask('LIN', d, eps, pre, lem, ms)
        if cheap:
            return r
        if r != 'unsat' and not self.late() and lem and self.lemmas and nl and pre is True:
            r = self.cut(x, y, ms, eps)[0]
        if r != 'unsat' and not self.late() and nl:
            r = self.ask('LIN', d, eps, pre, lem, ms, cases=40)
        if r != 'unsat' and real and not self.late():
            r = self.ask('REAL', d, eps, pre, lem, ms, True)
        return r

    def lemma(self, t, cheap=False):
        """bounds for the raw term t among the candidates: a pair that holds, else one side each"""
        def holds(x, y):
            if x is None or y is None:
                return True
            k = (x.id, y.id)
            if memo.get(k) is None:
                memo[k] = self.prove(x, y, ms=700, real=nonlin(t), cheap=cheap) == 'unsat'
            return memo[k]
        memo = {}
        cs = list(self.cands)
        if t.op != 'box' and len(cs) > 1:      # a quotient is more often a share than a value
            cs = cs[1:] + cs[:1]
        for lo, hi in cs:
            if self.late():
                return
            if holds(lo, t) and holds(t, hi):
                break
        else:
            if cheap:
                return
            lo = next((b[0] for b in self.cands if b[0] is not None and memo.get((b[0].id, t.id))), None)
            hi = next((b[1] for b in self.cands if b[1] is not None and not self.late() and not cheap and holds(t, b[1])), None)
        if lo is not None or hi is not None:
            self.R.queries.append(('lemma: bounds of a sub-term', 'LIN', 'unsat'))
            self.lemmas.append((t, lo, hi))
            return True

    def cut(self, x, y, ms, eps=EPS, depth=None):
        """x <= y with every sub-term that has lemma bounds replaced by an unknown within them, and (depth) every quotient,
        product or conditional value nested deeper than that by an arbitrary unknown"""
        m = {}; back = []
        for t, lo, hi in self.lemmas:
            if type(x) is T and t is x or type(y) is T and t is y:
                continue
            v = m[t.id] = tm.var('cut%d!' % t.id)
            back.append((v, lo, hi))
        if depth is not None:
            for z in (x, y):
                top = type(z) is T and cand(z)
                for u in nested(z, depth if top else depth - 1, m, z if top else None):
                    m[u.id] = tm.var('cut%d!' % u.id)
        s = Sub(m)
        d = norm.ndiag(s.diag(tm.fbin('fsub', x, y)))
        keep, self.lemmas = self.lemmas, back
        try:
            r = self.ask('LIN', d, eps, True, True, ms)
            how = 'LIN(lemmas, cut)'
            if r != 'unsat' and not self.late():
                r = self.ask('REAL', d, eps, True, True, ms)
                how = 'REAL(lemmas, cut)'
        finally:
            self.lemmas = keep
        return r, how

    def known(self, x, lo, hi):
        """an output already shown to lie between lo and hi"""
        if type(x) is Node:
            x = tm.box(x)
        if type(x) is T and x.op not in ('const', 'var'):
            self.cond[x.id] = 1
            self.lemmas.append((x, lo, hi))

    def claim(self, label, x, y, pre=True, ms=4000):
        """x <= y always? -> ('unsat'|'sat'|'unknown', found)"""
        R = self.R
        eps = EPS
        r = self.prove(x, y, pre, eps, ms=1500, lem=bool(self.lemmas))
        if r == 'unsat':
            R.queries.append((label, 'LIN(divisors cleared)', r))
            return r, None
        d = norm.ndiag(tm.fbin('fsub', x, y))
        n0 = len(self.lemmas)
        if n0 and not self.late():
            r, how = self.cut(x, y, 1000)
            if r == 'unsat':
                R.queries.append((label, how, r))
                return r, None
            r = 'sat' if not opaque(d) else r
        if r == 'sat' and not opaque(d):
            v, m, tr, f = self.ask('REAL', d, eps, pre, False, ms, want=True)
            R.queries.append((label, 'REAL', v))
            return v, (tr, m, f)
        ts = subterms(tm.fbin('fsub', x, y), cand)
        inner = [t for t in ts if not nested(t, 1, {}, t) and not (t.op == 'box' and nested(t.args[0], 0, {}, t))]
        for t in inner + ts[::-1]:
            if t.id not in self.cond and t.id not in self.quick and not self.late():
                self.quick[t.id] = 1
                if self.lemma(t, True):
                    self.cond[t.id] = 1
                    r, how = self.cut(x, y, 250, depth=1)
                    if r == 'unsat':
                        R.queries.append((label, how, r))
                        return r, None
        if len(self.lemmas) > n0:
            for depth in (1, 2, 3, None):
                if self.late():
                    break
                r, how = self.cut(x, y, 500, depth=depth)
                if r == 'unsat':
                    R.queries.append((label, how, r))
                    return r, None
        for t in ts:
            if t.id in self.cond or self.late():
                continue
            self.cond[t.id] = 1
            self.lemma(t)
        if len(self.lemmas) > n0 or n0:
            for depth in (1, 2, 3, None):
                if self.late():
                    break
                r, how = self.cut(x, y, ms, depth=depth)
                if r == 'unsat':
                    R.queries.append((label, how, r))
                    return r, None
            for mode, ab, cs in (('LIN', False, 0), ('LIN', False, 40), ('REAL', True, 0)):
                if self.late():
                    break
                r = self.ask(mode, d, eps, pre, True, ms, ab, cases=cs)
                if r == 'unsat':
                    R.queries.append((label, mode + '(lemmas)', r))
                    return r, None
        if self.late():
            R.queries.append((label, 'REAL', 'unknown'))
            return 'unknown', None
        v, m, tr, f = self.ask('REAL', d, eps, pre, False, ms, want=True)
        R.queries.append((label, 'REAL', v))
        return v, (tr, m, f)


_nl = {}


def nonlin(t):
    """does the term contain a quotient, product or function of input values"""
    r = _nl.get(t.id)
    if r is not None:
        return r
    r = bool(subterms(t, lambda x: x.op == 'fdiv' and x.args[1].op != 'const' or x.op == 'fmul' and x.args[0].op != 'const' and x.args[1].op != 'const' or x.op in ('sqrt', 'sin', 'atan', 'cos', 'exp')))
    _nl[t.id] = r
    return r


def opaque(d):
    return any(nonlin(l) or nlpoly(l) for l in tm.leafset(d) if type(l) is T) or type(d) is T and nlpoly(d)


_np = {}


def nlpoly(t):
    """normalised term or diagram with products, reciprocals or functions"""
    key = t.id if type(t) is T else t
    r = _np.get(key)
    if r is not None:
        return r
    st = [t]; seen = set(); r = False
    while st and not r:
        x = st.pop()
        if type(x) is Node:
            if id(x) in seen:
                continue
            seen.add(id(x))
            a = tm.ATOMS[x.var]
            st.extend(y for y in a.args if type(y) is T) if a.op in ('olt', 'ole', 'oeq') else None
            st += [x.hi, x.lo]
            continue
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'poly':
            for m, c in x.args:
                if len(m) > 1:
                    r = True
                st.extend(m)
        elif x.op == 'box':
            st.append(x.args[0])
        elif x.op in ('const', 'var', 'bvar', 'undef'):
            pass
        elif x.op == 'fabs':
            st.extend(x.args)
        else:
            r = True
    _np[key] = r
    return r


# ------------------------------------------------------------- definedness
class Defined:
    """shows that evaluating a value never divides by zero or leaves the domain of a function, piece by piece: a quotient,
    product or conditional value nested deeper than some levels is an arbitrary number there and is shown on its own"""

    def __init__(self, pr, end):
        self.pr = pr; self.end = end; self.memo = {}

    def late(self):
        return time.time() > self.end

    def pieces(self, z, depth):
        m = {}; deep = []
        top = type(z) is T and cand(z)
        for u in nested(z, depth if top else depth - 1, m, z if top else None):
            m[u.id] = tm.var('cut%d!' % u.id)
            deep.append(u)
        known = [(m[t.id], lo, hi) for t, lo, hi in self.pr.lemmas if t.id in m]
        s = Sub(m)
        x = s.diag(z.args[0] if type(z) is T and z.op == 'box' else z)
        return x, [u for u in deep if u.id in s.used], known        # the others lie inside pieces

    def ask(self, z, depth, ms, under=None):
        """no undefined operation in z above `depth` levels [when the value `under[1]` of the piece under[0] is needed]"""
        x, deep, known = self.pieces(z, depth)
        pr = self.pr
        for mode in ('LIN', 'REAL'):
            tr = RTr(mode)
            tr.posvars = True
            u = undefined(tr, x)
            if u is None:
                return True, deep
            F = [u]
            kn = known
            if under:
                y, _, k2 = under[1]
                need = undefined(tr, y, under[0])
                if need is None:
                    return True, []
                F.append(need)
                kn = known + k2
            keep, pr.lemmas = pr.lemmas, kn
            try:
                F += pr.assume(tr)
            finally:
                pr.lemmas = keep
            F += pr.dom(tr)
            F += tr.side
            if smt.solve(F, ms) == 'unsat':
                return True, deep
        return False, deep

    def show(self, z):
        k = z.id if type(z) is T else z
        r = self.memo.get(k)
        if r is None:
            r = False
            self.memo[k] = False        # not used while open: sub-terms are smaller
            for depth in (1, 2, 3, 4):
                if self.late():
                    break
                ok, deep = self.ask(z, depth, 200 * depth)
                if ok and all(self.show(y) or self.inside(z, depth, y) for y in deep):
                    r = True
                    break
            self.memo[k] = r
        return r

    def inside(self, z, depth, y):
        """the piece y of z is defined whenever z needs its value"""
        if self.late():
            return False
        x, deep, known = self.pieces(z, depth)
        for d in (1, 2):
            ok, more = self.ask(y, d, 300, ('cut%d!' % y.id, (x, deep, known)))
            if ok and all(self.show(u) for u in more):
                return True
        return False


UNARY = {'sqrt': lambda x: x >= 0, 'log': lambda x: x > 0, 'log10': lambda x: x > 0, 'asin': lambda x: z3.And(x >= -1, x <= 1), 'acos': lambda x: z3.And(x >= -1, x <= 1)}


def undefined(tr, d, hit=None):
    """z3 formula: evaluating the diagram d divides by zero or leaves the domain of a function
    (hit: ... needs the value of this variable)"""
    memo = {}
    dm = {}

    def term(t):
        if t.id in memo:
            return memo[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop(); continue
            if x.op in ('const', 'var', 'bvar', 'undef'):
                if hit:
                    memo[x.id] = z3.BoolVal(True) if x.op == 'var' and x.args == hit else None
                elif x.op == 'const' and (x.val != x.val or x.val in (float('inf'), float('-inf'))):
                    memo[x.id] = z3.BoolVal(True)
                else:
                    memo[x.id] = None
                st.pop(); continue
            if x.op == 'box':
                pend = [y for y in dkids(x.args[0]) if y.id not in memo]
            else:
                pend = [y for y in x.args if type(y) is T and y.id not in memo]
            if pend:
                st.extend(pend); continue
            if x.op == 'box':
                memo[x.id] = diag(x.args[0])
            else:
                out = [memo[y.id] for y in x.args if type(y) is T and memo[y.id] is not None]
                if hit:
                    pass
                elif x.op == 'fdiv':
                    p = norm.norm(x.args[1])
                    k = norm.isconst(p)
                    if k is None:
                        lt, gt, ok = tr.cleared(p)
                        out.append(z3.And(ok, z3.Not(lt), z3.Not(gt)))
                    elif k == 0:
                        out.append(z3.BoolVal(True))
                elif x.op in UNARY:
                    out.append(z3.Not(UNARY[x.op](tr.term(norm.polyT(norm.norm(x.args[0]))))))
                memo[x.id] = z3.Or(out) if out else None
            st.pop()
        return memo[t.id]

    def dkids(n):
        out = []; seen = set(); st = [n]
        while st:
            x = st.pop()
            if type(x) is Node:
                if x in seen:
                    continue
                seen.add(x)
                a = tm.ATOMS[x.var]
                if a.op in ('olt', 'ole', 'oeq', 'isnan'):
                    out.extend(y for y in a.args if type(y) is T)
                st += [x.hi, x.lo]
            elif type(x) is T and x.sort[0] == 'f':
                out.append(x)
        return out

    def diag(n):
        if n is UNDEF:
            return None if hit else z3.BoolVal(True)
        if type(n) is not Node:
            return term(n) if type(n) is T and n.sort[0] == 'f' else None
        if n in dm:
            return dm[n]
        h = diag(n.hi); l = diag(n.lo)
        a = tm.ATOMS[n.var]
        out = []
        if a.op in ('olt', 'ole', 'oeq', 'isnan'):
            out = [term(y) for y in a.args if type(y) is T]
            out = [y for y in out if y is not None]
        if h is not None or l is not None:
            c = tr.diagram(norm.natom(n.var))
            F = z3.BoolVal(False)
            out.append(z3.If(c, F if h is None else h, F if l is None else l))
        r = dm[n] = z3.Or(out) if out else None
        return r
    return diag(d)
