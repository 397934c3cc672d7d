"""Canonical forms over the reals.

norm(t) rewrites a floating-point term into a polynomial (with opaque factors:
variables, function applications, reciprocals, conditional values), so that
expressions that differ only by association, distribution or order of
accumulation become identical.  Doubles within 1e-15 (relative) of a rational
with denominator <= 10^6 are read as that rational (0.1, 2/15, ...).

The rewriting is used in front of the solver: what it cannot identify is
decided by z3 over the rewritten terms."""
from fractions import Fraction
from . import terms as tm
from .terms import T, Node, UNDEF, mk

MAXTERMS = 400
_pm = {}
_dm = {}
_tp = {}
_am = {}
ZERO = ()


IND = False          # conditional values as polynomials in 0/1 indicators of the conditions
MAXIND = 1500
_saved = ({}, {}, {})


class TooBig(Exception):
    pass


def reset():
    global IND
    IND = False
    _pm.clear(); _dm.clear(); _tp.clear(); _am.clear()
    for d in _saved: d.clear()


def _swap():
    global IND, _pm, _dm, _am, _saved
    a = (_pm, _dm, _am)
    _pm, _dm, _am = _saved
    _saved = a
    IND = not IND


def indicator(n):
    """a value (diagram or term) as a polynomial in which every conditional value is written with indicators (multilinear); None if too big"""
    _swap()
    try:
        r = ndiag(n)
        return indbox(r) if type(r) is Node else leafpoly(r) if type(r) is T and r.sort[0] == 'f' else None
    except (TooBig, RecursionError):
        return None
    finally:
        _swap()


def indmul(m, v):
    """monomial times indicator of atom v (None: the product is zero)"""
    a = tm.ATOMS[v]
    for t in m:
        if t.op == 'ind':
            w = t.args[0]
            if w == v: return m
            b = tm.ATOMS[w]
            if a.op == 'olt' and b.op == 'olt' and a.args[0] is b.args[1] and a.args[1] is b.args[0]: return None
    return tuple(sorted(m + (mk('ind', (v,), 'f64'),), key=lambda t: t.id))


def indbox(n):
    memo = {}

    def go(x):
        if type(x) is not Node:
            if type(x) is not T or x.sort[0] != 'f': raise TooBig
            return leafpoly(x)
        r = memo.get(x)
        if r is not None: return r
        h, l = go(x.hi), go(x.lo)
        d = dict(l)
        for m, c in padd(h, l, -1):
            m = indmul(m, x.var)
            if m is None: continue
            k = d.get(m, 0) + c
            if k: d[m] = k
            else: d.pop(m, None)
        if len(d) > MAXIND: raise TooBig
        r = memo[x] = freeze(d)
        return r
    return go(n)


_fr = {}


def nice(v):
    r = _fr.get(v)
    if r is None:
        f = Fraction(v)
        if f.denominator > 1:
            g = f.limit_denominator(1000000)
            if abs(g - f) <= abs(f) * Fraction(1, 10 ** 15):
                f = g
        r = _fr[v] = f
    return r


def key(m):
    return tuple(t.id for t in m)


def freeze(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: key(x[0])))


def padd(a, b, s=1):
    if not b:
        return a
    d = dict(a)
    for m, c in b:
        x = d.get(m, 0) + s * c
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return freeze(d)


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ()
    return tuple((m, c * k) for m, c in a)


def pmul(a, b):
    if not a or not b:
        return ()
    if len(a) == 1 and a[0][0] == ():
        return pscale(b, a[0][1])
    if len(b) == 1 and b[0][0] == ():
        return pscale(a, b[0][1])
    if IND:
        if len(a) * len(b) > 40 * MAXTERMS: raise TooBig
    elif len(a) * len(b) > MAXTERMS or any(len(m) > 6 for m, _ in a) or any(len(m) > 6 for m, _ in b):
        ka, a = primitive(a)
        kb, b = primitive(b)
        x = polyT(a); y = polyT(b)
        if x.id > y.id:
            x, y = y, x
        return (((mk('nmul', (x, y), 'f64'),), ka * kb),)
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            if IND and any(t.op == 'ind' for t in m2):
                m = tuple(sorted(m1 + tuple(t for t in m2 if t.op != 'ind'), key=lambda t: t.id))
                for t in m2:
                    if t.op == 'ind' and m is not None: m = indmul(m, t.args[0])
                if m is None: continue
            else:
                m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return freeze(d)


def const(c):
    return (((), c),) if c else ()


def isconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def primitive(p):
    """(lead coefficient, p/lead)"""
    # leading = last non-constant monomial
    k = p[-1][1] if p[-1][0] != () or len(p) == 1 else p[-2][1]
    return k, pscale(p, 1 / k)


def polyT(p):
    """intern polynomial as a term"""
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        return p[0][0][0]
    t = mk('poly', p, 'f64')
    _tp[t.id] = p
    return t


def opaque(t):
    return (((t,), Fraction(1)),)


def norm(t):
    """term -> polynomial (tuple of (monomial, coefficient))"""
    r = _pm.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _pm:
            stack.pop(); continue
        pend = [y for y in kids(x) if y.id not in _pm]
        if pend:
            stack.extend(pend)
            continue
        _pm[x.id] = conv(x)
        stack.pop()
    return _pm[t.id]


def kids(x):
    if x.op in ('const', 'var', 'undef', 'poly', 'bvar'):
        return []
    if x.op == 'box':
        return diag_kids(x.args[0])
    return [y for y in x.args if type(y) is T and y.sort[0] == 'f']


def diag_kids(n):
    out = []
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if type(x) is Node:
            if x in seen:
                continue
            seen.add(x)
            a = tm.ATOMS[x.var]
            if a.op in ('olt', 'ole', 'oeq', 'isnan'):
                out.extend(y for y in a.args if type(y) is T)
            st.append(x.hi); st.append(x.lo)
        elif type(x) is T and x.sort[0] == 'f':
            out.append(x)
    return out


def conv(x):
    op = x.op
    if op == 'const':
        v = x.val
        if v != v or v in (float('inf'), float('-inf')):
            return opaque(x)
        return const(nice(v))
    if op == 'poly':
        return x.args
    if op in ('var', 'undef'):
        return opaque(x)
    if op == 'box':
        return pbox(ndiag(x.args[0]))
    P = _pm
    a = [P[y.id] if type(y) is T and y.id in P else y for y in x.args]
    if op == 'fadd': return padd(a[0], a[1])
    if op == 'fsub': return padd(a[0], a[1], -1)
    if op == 'fneg': return pscale(a[0], -1)
    if op == 'fmul': return pmul(a[0], a[1])
    if op in ('fpext', 'fptrunc'): return a[0]
    if op == 'fdiv':
        k = isconst(a[1])
        if k is not None:
            if k == 0:
                return opaque(mk('fdiv', (polyT(a[0]), polyT(())), 'f64'))
            return pscale(a[0], 1 / k)
        k, p = primitive(a[1])
        if a[0] == ():
            return ()          # 0/x with x != 0 (division by zero stated as out of scope)
        inv = opaque(mk('inv', (polyT(p),), 'f64'))
        k0, n0 = primitive(a[0]) if a[0] else (0, ())
        if n0 == p:
            return const(k0 / k)
        return pscale(pmul(a[0], inv), 1 / k)
    if op == 'fabs':
        p = a[0]
        k = isconst(p)
        if k is not None:
            return const(abs(k))
        k, p = primitive(p)
        return pscale(opaque(mk('fabs', (polyT(p),), 'f64')), abs(k))
    # generic function application
    args = tuple(polyT(q) if isinstance(q, tuple) and not isinstance(q, T) else q for q in a)
    return opaque(mk(op, args, x.sort))


def pbox(n):
    """diagram with polyT leaves -> polynomial, common part factored out"""
    if type(n) is not Node:
        return leafpoly(n)
    if IND:
        return indbox(n)
    ls = [l for l in tm.leafset(n)]
    if any(type(l) is not T for l in ls):
        return opaque(mk('box', (n,), 'f64'))
    polys = [dict(leafpoly(l)) for l in ls]
    common = {}
    for m, c in polys[0].items():
        if all(q.get(m) == c for q in polys[1:]):
            common[m] = c
    if common:
        cf = freeze(common)
        n = tm.map1(lambda l: polyT(padd(leafpoly(l), cf, -1)), n)
    else:
        cf = ()
    # scale so that the box is primitive
    ks = None
    for l in tm.leafset(n):
        p = leafpoly(l)
        if p:
            ks = primitive(p)[0]
            break
    # choose a canonical scale: that of the first non-zero leaf in diagram order
    ks = first_scale(n)
    if ks not in (None, 1):
        n = tm.map1(lambda l: polyT(pscale(leafpoly(l), 1 / ks)), n)
    else:
        ks = Fraction(1)
    return padd(cf, pscale(opaque(mk('box', (n,), 'f64')), ks))


def first_scale(n):
    if type(n) is not Node:
        p = leafpoly(n)
        return primitive(p)[0] if p else None
    r = first_scale(n.hi)
    return r if r is not None else first_scale(n.lo)


def leafpoly(l):
    if l.op == 'poly':
        return l.args
    r = _pm.get(l.id)
    if r is None:
        r = norm(l)
    return r


def natom(i):
    """normalised BDD for an atom"""
    r = _am.get(i)
    if r is not None:
        return r
    t = tm.ATOMS[i]
    if t.op in ('olt', 'ole', 'oeq'):
        d = padd(norm(t.args[0]), norm(t.args[1]), -1)
        k = isconst(d)
        if k is not None:
            r = k < 0 if t.op == 'olt' else k <= 0 if t.op == 'ole' else k == 0
        else:
            k, p = primitive(d)
            z = polyT(())
            pt = polyT(p)
            if t.op == 'oeq':
                r = tm.band(tm.bnot(_raw('olt', pt, z)), tm.bnot(_raw('olt', z, pt)))
            elif t.op == 'olt':      # k*p < 0
                r = _raw('olt', pt, z) if k > 0 else _raw('olt', z, pt)
            else:                    # k*p <= 0
                r = tm.bnot(_raw('olt', z, pt)) if k > 0 else tm.bnot(_raw('olt', pt, z))
    elif t.op == 'isnan':
        r = False
    elif t.op == 'icmp':
        r = tm.atom(mk('icmp', (t.args[0], t.args[1]) + tuple(nint(a) for a in t.args[2:]), 'bool'))
    else:
        r = tm.node(i, True, False)
    _am[i] = r
    return r


def nint(t):
    """normalise FP terms below a symbolic integer"""
    if type(t) is not T:
        return t
    if t.op == 'fptosi':
        return mk('fptosi', (polyT(norm(t.args[0])),), t.sort)
    if t.op == 'var':
        return t
    return mk(t.op, tuple(nint(a) if type(a) is T and a.sort[0] == 'i' else a for a in t.args), t.sort)


def _raw(op, a, b):
    # fabs(p) < 0 is false; 0 < -fabs etc. handled by solver
    if a.op == 'fabs' and b.op == 'poly' and b.args == () and op == 'olt':
        return False
    return tm.atom(mk(op, (a, b), 'bool'))


def ndiag(n):
    """normalised diagram (leaves polyT / unchanged non-FP)"""
    if type(n) is not Node:
        return nleaf(n)
    r = _dm.get(n)
    if r is not None or n in _dm:
        return r
    # iterative on depth: diagrams are small
    h = ndiag(n.hi); l = ndiag(n.lo)
    r = tm.ite(natom(n.var), h, l)
    _dm[n] = r
    return r


def nleaf(v):
    if type(v) is T:
        if v.sort[0] == 'f':
            return polyT(norm(v))
        return nint(v)
    return v
