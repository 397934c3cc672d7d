"""Hash-consed terms, and decision diagrams over boolean atoms.

Values handled by the executor:
  int / bool            concrete integers (signed canonical) / i1
  T                     a symbolic term: floating point (sort 'f64'/'f32'), or
                        symbolic integer (sort 'i8'..'i64')
  (obj, off)            pointer (tuple of two ints)
  UNDEF                 uninitialised / poison
  Node                  multi-terminal decision diagram over atoms with any of
                        the above as leaves (bool leaves: a BDD = path condition)
"""
import math, struct


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id')

    def __repr__(self):
        return show(self, 4)

    def __reduce__(self):
        raise TypeError('terms are process local')


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Node:
    __slots__ = ('var', 'hi', 'lo', 'size')

    def __repr__(self):
        return '(%r ? %r : %r)' % (ATOMS[self.var], self.hi, self.lo)


# assume no NaN reaches a comparison (comparisons form a total order)
NONAN = True

_tab = {}
_ntab = {}
ATOMS = []
_atomidx = {}
_cnt = [0]


def reset():
    _tab.clear(); _ntab.clear(); ATOMS.clear(); _atomidx.clear(); _ite_memo.clear(); _restr_memo.clear()
    _cst.clear(); RANGE.clear()
    _cnt[0] = 0
    _prune_memo.clear()


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort; t.val = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


_cst = {}


def fc(v, sort='f64'):
    """floating constant"""
    k = (struct.pack('<d', v), sort)
    t = _cst.get(k)
    if t is None:
        if v != v:
            k2 = ('nan', sort)
            t = _cst.get(k2)
        if t is None:
            t = T()
            t.op = 'const'; t.args = k; t.sort = sort; t.val = v
            _cnt[0] += 1
            t.id = _cnt[0]
            if v != v:
                _cst[('nan', sort)] = t
        _cst[k] = t
    return t


def var(name, sort='f64'):
    return mk('var', name, sort)


RANGE = {}      # id of a variable -> (smallest, largest value it can take)


def optvar(name, lo, hi):
    """a symbolic option value in its published range"""
    v = var('opt_' + name)
    RANGE[v.id] = (float(lo), float(hi))
    return v


def show(t, d=6):
    if isinstance(t, Node):
        if d <= 0:
            return '..'
        return '(%s ? %s : %s)' % (show(ATOMS[t.var], d - 1), show(t.hi, d - 1), show(t.lo, d - 1))
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'const':
        return repr(t.val)
    if t.op == 'var':
        return str(t.args)
    if d <= 0:
        return '#%d' % t.id
    if t.op == 'box':
        return 'box' + show(t.args[0], d - 1)
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) if isinstance(a, (T, Node)) else repr(a) for a in t.args))


# ---------------------------------------------------------------- diagrams
def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def node(v, hi, lo):
    if hi is lo or (type(hi) is type(lo) and type(hi) is not Node and hi == lo):
        return hi
    k = (v, type(hi), hi, type(lo), lo)
    n = _ntab.get(k)
    if n is None:
        n = Node()
        n.var = v; n.hi = hi; n.lo = lo
        s = 1
        if type(hi) is Node:
            s += hi.size
        if type(lo) is Node:
            s += lo.size
        n.size = s
        _ntab[k] = n
    return n


def atom(t):
    """boolean term -> BDD"""
    i = _atomidx.get(t)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _atomidx[t] = i
    return node(i, True, False)


_fresh = [0]


def fresh_bool(name):
    return atom(mk('bvar', name, 'bool'))


_ite_memo = {}


def _top(x):
    return x.var if type(x) is Node else 1 << 60


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is type(b) and type(a) is not Node and a == b):
        return a
    if a is True and b is False:
        return c
    k = (c, type(a), a, type(b), b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = c.var
    if type(a) is Node and a.var < v:
        v = a.var
    if type(b) is Node and b.var < v:
        v = b.var
    ch, cl = (c.hi, c.lo) if c.var == v else (c, c)
    ah, al = (a.hi, a.lo) if type(a) is Node and a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if type(b) is Node and b.var == v else (b, b)
    r = node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _ite_memo[k] = r
    return r


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return ite(a, False, True)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ite(a, b, False)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ite(a, True, b)


_restr_memo = {}


def restrict(f, c):
    """generalised cofactor: agrees with f wherever c holds"""
    if type(f) is not Node or c is True or c is False:
        return f
    if f is c:
        return True
    k = (f, c)
    r = _restr_memo.get(k)
    if r is not None or k in _restr_memo:
        return r
    if c.var < f.var:
        r = restrict(f, bor(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is False:
            r = restrict(f.lo, c.lo)
        elif c.lo is False:
            r = restrict(f.hi, c.hi)
        else:
            r = node(f.var, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = node(f.var, restrict(f.hi, c), restrict(f.lo, c))
    _restr_memo[k] = r
    return r


def map1(f, a):
    if type(a) is not Node:
        return f(a)
    memo = {}

    def go(x):
        if type(x) is not Node:
            return f(x)
        r = memo.get(x)
        if r is None and x not in memo:
            h = go(x.hi); l = go(x.lo)
            r = mixn(x.var, h, l)
            memo[x] = r
        return r
    return go(a)


def mixn(v, h, l):
    """node(v,h,l) where h/l may contain variables ordered before v"""
    if (type(h) is Node and h.var <= v) or (type(l) is Node and l.var <= v):
        return ite(node(v, True, False), h, l)
    return node(v, h, l)


def map2(f, a, b):
    if type(a) is not Node and type(b) is not Node:
        return f(a, b)
    memo = {}

    def go(x, y):
        nx = type(x) is Node; ny = type(y) is Node
        if not nx and not ny:
            return f(x, y)
        k = (type(x), x, type(y), y)
        if k in memo:
            return memo[k]
        v = x.var if nx else y.var
        if ny and y.var < v:
            v = y.var
        xh, xl = (x.hi, x.lo) if nx and x.var == v else (x, x)
        yh, yl = (y.hi, y.lo) if ny and y.var == v else (y, y)
        r = mixn(v, go(xh, yh), go(xl, yl))
        memo[k] = r
        return r
    return go(a, b)


def leaves(a):
    """list of (condition BDD, leaf)"""
    if type(a) is not Node:
        return [(True, a)]
    # conditions are propagated from the root in variable order, so that a shared node is visited once
    order = []
    seen = set()
    st = [a]
    byvar = {}
    while st:
        x = st.pop()
        if type(x) is not Node:
            k = (type(x), x)
            if k not in seen:
                seen.add(k); order.append(k)
            continue
        if x in seen:
            continue
        seen.add(x)
        byvar.setdefault(x.var, []).append(x)
        st.append(x.lo); st.append(x.hi)
    acc = {a: True}
    for v in sorted(byvar):
        for x in byvar[v]:
            c = acc.pop(x)
            for y, d in ((x.hi, node(v, True, False)), (x.lo, node(v, False, True))):
                k = y if type(y) is Node else (type(y), y)
                p = acc.get(k)
                n = band(c, d)
                acc[k] = n if p is None else bor(p, n)
    return [(acc[k], k[1]) for k in order]


def leafset(a):
    if type(a) is not Node:
        return {a: 1}
    out = {}
    seen = set()
    st = [a]
    while st:
        x = st.pop()
        if type(x) is Node:
            if x in seen:
                continue
            seen.add(x)
            st.append(x.hi); st.append(x.lo)
        else:
            out[x] = 1
    return out


BOXLIM = 150


def fmerge(c, a, b):
    """ite for values at control-flow joins (bounds diagram growth of FP)"""
    if type(a) is Node and a.size > BOXLIM:
        if isfp(a):
            a = box(a)
    if type(b) is Node and b.size > BOXLIM:
        if isfp(b):
            b = box(b)
    r = ite(c, a, b)
    if type(r) is Node and r.size > 16:
        r = prune(r)
    return r


def isfp(n):
    while type(n) is Node:
        n = n.hi
    return type(n) is T and n.sort[0] == 'f'


def box(n):
    """diagram of FP leaves -> opaque FP term"""
    if type(n) is not Node:
        return n
    s = None
    if UNDEF in leafset(n):
        n = map1(lambda x: undef_fp('f64') if x is UNDEF else x, n)
    n = prune(n)
    if type(n) is not Node:
        return n
    m = n
    while type(m) is Node:
        m = m.hi
    return mk('box', (n,), m.sort)


def undef_fp(sort):
    return mk('undef', (), sort)


# ---------------------------------------------------------------- FP ops
def _f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def _fop(op, x, y):
    if op == 'fadd':
        return x + y
    if op == 'fsub':
        return x - y
    if op == 'fmul':
        return x * y
    if op == 'fdiv':
        if y == 0.0:
            if x != x or x == 0.0:
                return math.nan
            neg = (math.copysign(1.0, x) < 0) != (math.copysign(1.0, y) < 0)
            return -math.inf if neg else math.inf
        return x / y
    if op == 'frem':
        return math.fmod(x, y)
    raise KeyError(op)


def fbin(op, a, b, sort='f64'):
    if type(a) is Node:
        a = dist_or_box(a, b, op, sort, True)
        if type(a) is tuple:
            return a[0]
    if type(b) is Node:
        b = dist_or_box(b, a, op, sort, False)
        if type(b) is tuple:
            return b[0]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == 'const':
        if b.op == 'const':
            r = _fop(op, a.val, b.val)
            if sort == 'f32':
                r = _f32(r)
            return fc(r, sort)
        if op == 'fmul' and a.val == 1.0:
            return b
    elif b.op == 'const':
        if b.val == 1.0 and (op == 'fmul' or op == 'fdiv'):
            return a
        if op == 'fsub' and b.val == 0.0 and math.copysign(1.0, b.val) > 0:
            return a
    if (op == 'fadd' or op == 'fmul') and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), sort)


def allconst(n):
    for x in leafset(n):
        if type(x) is not T or x.op != 'const':
            return False
    return True


def dist_or_box(n, other, op, sort, left):
    """constant-leaf diagrams distribute over arithmetic with constants"""
    if n.size <= 64 and allconst(n) and (type(other) is Node and other.size <= 64 and allconst(other) or
                       (type(other) is T and other.op == 'const')):
        if left:
            return (map2(lambda x, y: fbin(op, x, y, sort), n, other),)
        return (map2(lambda x, y: fbin(op, y, x, sort), n, other),)
    return box(n)


def fneg(a):
    if type(a) is Node:
        a = box(a)
    if a is UNDEF:
        return a
    if a.op == 'const':
        return fc(-a.val, a.sort)
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), a.sort)


_MATH = {
    'fabs': abs, 'sqrt': math.sqrt, 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)),
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
    'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'exp': math.exp, 'log': math.log, 'log10': math.log10,
}


def fun1(name, a, sort='f64'):
    if type(a) is Node:
        if allconst(a):
            return map1(lambda x: fun1(name, x, sort), a)
        if name == 'fabs' and a.size <= 8:
            return map1(lambda x: fun1(name, x, sort), a)
        a = box(a)
    if a is UNDEF:
        return a
    if a.op == 'const':
        v = a.val
        try:
            if v != v:
                return a
            if math.isinf(v) and name in ('floor', 'ceil'):
                return a
            return fc(_MATH[name](v), sort)
        except ValueError:
            if name in ('log', 'log10') and v == 0:
                return fc(-math.inf, sort)
            return fc(math.nan, sort)
        except OverflowError:
            if name == 'sinh' and v < 0:
                return fc(-math.inf, sort)
            return fc(math.inf, sort)
    if name == 'fabs' and a.op in ('fabs', 'fneg'):
        return fun1('fabs', a.args[0], sort) if a.op == 'fneg' else a
    return mk(name, (a,), sort)


def fun2(name, a, b, sort='f64'):
    a = box(a); b = box(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == 'const' and b.op == 'const' and name == 'pow':
        try:
            return fc(math.pow(a.val, b.val), sort)
        except (ValueError, OverflowError):
            pass
    return mk(name, (a, b), sort)


def _bounded(p, x, y):
    """comparison of two numbers known to lie in the ranges x and y; None if open"""
    if p in ('gt', 'ge'):
        x, y = y, x; p = 'lt' if p == 'gt' else 'le'
    if p == 'lt':
        return True if x[1] < y[0] else False if x[0] >= y[1] else None
    if p == 'le':
        return True if x[1] <= y[0] else False if x[0] > y[1] else None
    return p == 'ne' if x[1] < y[0] or y[1] < x[0] else None


def _fcmpT(pred, a, b):
    if a is UNDEF or b is UNDEF or a.op == 'undef' or b.op == 'undef':
        return UNDEF
    if a.op == 'const' and b.op == 'const':
        x = a.val; y = b.val
        uno = x != x or y != y
        if pred == 'olt': return x < y
        if pred == 'ole': return x <= y
        if pred == 'oeq': return x == y
        if pred == 'ogt': return x > y
        if pred == 'oge': return x >= y
        if pred == 'one': return (not uno) and x != y
        if pred == 'ord': return not uno
        if pred == 'uno': return uno
        if pred == 'ult': return uno or x < y
        if pred == 'ule': return uno or x <= y
        if pred == 'ugt': return uno or x > y
        if pred == 'uge': return uno or x >= y
        if pred == 'ueq': return uno or x == y
        if pred == 'une': return uno or x != y
        raise KeyError(pred)
    if RANGE and (a.id in RANGE and b.op == 'const' or b.id in RANGE and a.op == 'const') and pred[0] in 'ou' and pred not in ('ord', 'uno'):
        r = _bounded(pred[1:], RANGE.get(a.id) or (a.val, a.val), RANGE.get(b.id) or (b.val, b.val))
        if r is not None:
            return r
    if BASE is not None:
        x = _frange(a); y = _frange(b)
        if x is not None and y is not None and pred[0] in 'ou' and pred not in ('ord', 'uno'):
            p = pred[1:]
            if p in ('gt', 'ge'):
                x, y = y, x; p = 'lt' if p == 'gt' else 'le'
            if p == 'lt':
                if x[1] < y[0]: return True
                if x[0] >= y[1]: return False
            elif p == 'le':
                if x[1] <= y[0]: return True
                if x[0] > y[1]: return False
            elif x[1] < y[0] or y[1] < x[0]:
                return p == 'ne'
    # order comparisons against NaN constants
    if (a.op == 'const' and a.val != a.val) or (b.op == 'const' and b.val != b.val):
        return pred[0] == 'u' and pred != 'uno' or pred == 'uno'
    if pred == 'olt':
        if a is b: return False
        return atom(mk('olt', (a, b), 'bool'))
    if pred == 'ole':
        if NONAN:
            return bnot(_fcmpT('olt', b, a))
        return atom(mk('ole', (a, b), 'bool'))
    if pred == 'oeq':
        if NONAN:
            return band(bnot(_fcmpT('olt', a, b)), bnot(_fcmpT('olt', b, a)))
        if a.id > b.id:
            a, b = b, a
        return atom(mk('oeq', (a, b), 'bool'))
    if pred == 'uno':
        if NONAN:
            return False
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const' or a is b:
            return atom(mk('isnan', (a,), 'bool'))
        return bor(_fcmpT('uno', a, a), _fcmpT('uno', b, b))
    if pred == 'ogt': return _fcmpT('olt', b, a)
    if pred == 'oge': return _fcmpT('ole', b, a)
    if pred == 'ord': return bnot(_fcmpT('uno', a, b))
    if pred == 'ult': return bnot(_fcmpT('ole', b, a))
    if pred == 'ule': return bnot(_fcmpT('olt', b, a))
    if pred == 'ugt': return bnot(_fcmpT('ole', a, b))
    if pred == 'uge': return bnot(_fcmpT('olt', a, b))
    if pred == 'une': return bnot(_fcmpT('oeq', a, b))
    if pred == 'one': return band(bnot(_fcmpT('oeq', a, b)), bnot(_fcmpT('uno', a, b)))
    if pred == 'ueq': return bor(_fcmpT('oeq', a, b), _fcmpT('uno', a, b))
    raise KeyError(pred)


DISTLIM = 24


def fcmp(pred, a, b):
    if pred == 'true': return True
    if pred == 'false': return False
    na = type(a) is Node; nb = type(b) is Node
    if not na and not nb:
        return _fcmpT(pred, a, b)
    if na and a.size > DISTLIM and not (allconst(a)):
        a = box(a)
    if nb and b.size > DISTLIM and not (allconst(b)):
        b = box(b)
    return map2(lambda x, y: _fcmpT(pred, x, y), a, b)


def fpext(a):
    if type(a) is Node:
        return map1(fpext, a)
    if a is UNDEF:
        return a
    if a.op == 'const':
        return fc(a.val, 'f64')
    return mk('fpext', (a,), 'f64')


def fptrunc(a):
    if type(a) is Node:
        return map1(fptrunc, a)
    if a is UNDEF:
        return a
    if a.op == 'const':
        return fc(_f32(a.val), 'f32')
    if a.op == 'fpext':
        return a.args[0]
    return mk('fptrunc', (a,), 'f32')


def fptosi(a, w):
    if type(a) is Node:
        if a.size <= 64:
            return map1(lambda x: fptosi(x, w), a)
        a = box(a)
    if a is UNDEF:
        return a
    if a.op == 'const':
        v = a.val
        lo = -(1 << (w - 1))
        if v != v or math.isinf(v) or not (lo - 1 < v < -lo):
            return lo          # x86 cvttsd2si "integer indefinite"
        return int(v)
    if a.op == 'sitofp' and a.args[0].sort == 'i%d' % w and w <= 32:
        return a.args[0]
    return mk('fptosi', (a,), 'i%d' % w)


def sitofp(a, sort='f64', uns=False, w=32):
    if type(a) is Node:
        return map1(lambda x: sitofp(x, sort, uns, w), a)
    if a is UNDEF:
        return a
    if type(a) is bool:
        return fc((1.0 if a else 0.0) if uns else (-1.0 if a else 0.0), sort)
    if type(a) is int:
        if uns and a < 0:
            a += 1 << w
        v = float(a)
        return fc(_f32(v) if sort == 'f32' else v, sort)
    return mk('uitofp' if uns else 'sitofp', (a,), sort)


# ---------------------------------------------------------------- int ops
def wrap(v, w):
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v


def uns(v, w):
    return v & ((1 << w) - 1)


# A stream's bar counter far beyond the bars that were run: K + c for a symbolic K, lo <= K <= hi, K a multiple of mod.
BASE = None


class Modulus(Exception):
    """the counter is reduced by a modulus (a ring size) that K is not a multiple of"""


def set_base(lo, hi, mod):
    """returns the 64-bit term K; None switches the rules off"""
    global BASE
    if lo is None:
        BASE = None
        return None
    k = mk('var', 'K', 'i64')
    BASE = {64: k, 32: mk('trunc', (k, 64, 32), 'i32'), 'lo': lo, 'hi': hi, 'mod': mod, 'small': hi < (1 << 31) - (1 << 16)}
    return k


def _lin(x, w):
    """c if x is K + c at this width"""
    k = BASE.get(w)
    if k is None:
        return None
    if x is k:
        return 0
    if type(x) is T and x.op == 'iadd' and x.args[0] is k and type(x.args[1]) is int and abs(x.args[1]) < (1 << 16):
        return x.args[1]
    return None


def _range(x, w):
    if type(x) is int:
        return (x, x)
    c = _lin(x, w)
    if c is None or BASE['lo'] + c < 0 or not (w == 64 or BASE['small']):
        return None
    return (BASE['lo'] + c, BASE['hi'] + c)


def _frange(t):
    """bounds of a floating-point value that is a number or a converted counter (conversion is monotone)"""
    if t.op == 'const':
        return (t.val, t.val) if t.val == t.val else None
    if t.op in ('uitofp', 'sitofp') and t.sort == 'f64' and type(t.args[0]) is T:
        r = _range(t.args[0], 64 if t.args[0].sort == 'i64' else 32)
        return None if r is None else (float(r[0]), float(r[1]))
    return None


def _ibin_base(op, a, b, w):
    ca = _lin(a, w) if type(a) is T else None
    if ca is None:
        return None
    if op == 'sub' and type(b) is T:
        cb = _lin(b, w)
        return None if cb is None else ca - cb
    if type(b) is int and b > 0 and _range(a, w) is not None:
        if op in ('urem', 'srem'):
            if BASE['mod'] % b == 0:
                return ca % b
            if b <= 512:
                raise Modulus(b)
        if op == 'and' and (b & (b + 1)) == 0:
            if BASE['mod'] % (b + 1) == 0:
                return ca & b
            if b < 512:
                raise Modulus(b + 1)
    return None


def _icmp_base(pred, a, b, w):
    if type(a) is T and type(b) is T:
        ca = _lin(a, w); cb = _lin(b, w)
        if ca is None or cb is None:
            return None
        if pred in ('eq', 'ne'):
            return (ca == cb) == (pred == 'eq')
        if _range(a, w) is None or _range(b, w) is None:
            return None
        return {'lt': ca < cb, 'le': ca <= cb, 'gt': ca > cb, 'ge': ca >= cb}[pred[1:]]
    x = _range(a, w); y = _range(b, w)
    if x is None or y is None:
        return None
    if pred[0] == 'u' and (x[0] < 0 or y[0] < 0):
        if w == 64 and x[0] >= 0 and y[1] < 0:
            y = (uns(y[0], w), uns(y[1], w))
        elif w == 64 and y[0] >= 0 and x[1] < 0:
            x = (uns(x[0], w), uns(x[1], w))
        else:
            return None
    if pred in ('eq', 'ne'):
        if x[1] < y[0] or y[1] < x[0]:
            return pred == 'ne'
        return None
    p = pred[1:]
    if p in ('gt', 'ge'):
        x, y = y, x; p = 'lt' if p == 'gt' else 'le'
    if p == 'lt':
        return True if x[1] < y[0] else False if x[0] >= y[1] else None
    return True if x[1] <= y[0] else False if x[0] > y[1] else None


def _ibinT(op, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if BASE is not None and w > 1:
        r = _ibin_base(op, a, b, w)
        if r is not None:
            return r
    if w == 1:
        if type(a) is bool and type(b) is bool:
            if op == 'and': return a and b
            if op == 'or': return a or b
            if op in ('xor', 'add', 'sub'): return a != b
        raise NotImplementedError('i1 ' + op)
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        if op == 'add': return wrap(a + b, w)
        if op == 'sub': return wrap(a - b, w)
        if op == 'mul': return wrap(a * b, w)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return wrap(a << b, w) if 0 <= b < w else UNDEF
        if op == 'ashr': return a >> b if 0 <= b < w else UNDEF
        if op == 'lshr': return wrap(uns(a, w) >> b, w) if 0 <= b < w else UNDEF
        if b == 0:
            return UNDEF if op in ('sdiv', 'srem', 'udiv', 'urem') else None
        if op == 'sdiv':
            q = abs(a) // abs(b)
            return wrap(q if (a < 0) == (b < 0) else -q, w)
        if op == 'srem':
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        if op == 'udiv': return wrap(uns(a, w) // uns(b, w), w)
        if op == 'urem': return wrap(uns(a, w) % uns(b, w), w)
        raise KeyError(op)
    if ta is tuple or tb is tuple:
        raise NotImplementedError('pointer arithmetic as int')
    # symbolic
    if tb is int:
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'ashr', 'lshr'):
            return a
        if b == 1 and op in ('mul', 'sdiv', 'udiv'):
            return a
        if op == 'sub':
            return _ibinT('add', a, wrap(-b, w), w)
        if op == 'add' and a.op == 'iadd' and type(a.args[1]) is int:
            return _ibinT('add', a.args[0], wrap(a.args[1] + b, w), w)
    elif ta is int and op in ('add', 'mul', 'and', 'or', 'xor'):
        return _ibinT(op, b, a, w)
    return mk('i' + op, (a, b), 'i%d' % w)


def ibin(op, a, b, w):
    if type(a) is Node or type(b) is Node:
        if w == 1:
            if op == 'and': return map2(lambda x, y: _i1('and', x, y), a, b)
            if op == 'or': return map2(lambda x, y: _i1('or', x, y), a, b)
            if op == 'xor': return map2(lambda x, y: _i1('xor', x, y), a, b)
        return map2(lambda x, y: _ibinT(op, x, y, w), a, b)
    return _ibinT(op, a, b, w)


def _i1(op, x, y):
    if op == 'and':
        if x is False or y is False:
            return False
        if x is UNDEF or y is UNDEF: return UNDEF
        return True
    if op == 'or':
        if x is True or y is True:
            return True
        if x is UNDEF or y is UNDEF: return UNDEF
        return False
    if x is UNDEF or y is UNDEF: return UNDEF
    return x != y


_FLIP = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}


def _icmpT(pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if BASE is not None and (type(a) is T or type(b) is T):
        r = _icmp_base(pred, a, b, w)
        if r is not None:
            return r
    ta = type(a); tb = type(b)
    if ta is bool and tb is bool:
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        a = int(a); b = int(b); ta = tb = int; w = 8
    if ta is int and tb is int:
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred == 'slt': return a < b
        if pred == 'sle': return a <= b
        if pred == 'sgt': return a > b
        if pred == 'sge': return a >= b
        a = uns(a, w); b = uns(b, w)
        if pred == 'ult': return a < b
        if pred == 'ule': return a <= b
        if pred == 'ugt': return a > b
        if pred == 'uge': return a >= b
    if ta is tuple and tb is tuple:
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if a[0] == b[0]:
            return _icmpT(pred, a[1], b[1], 64)
        raise NotImplementedError('pointer comparison across objects')
    if pred == 'ne':
        return bnot(_icmpT('eq', a, b, w))
    # comparisons of a widened value with a number: on the narrow value
    if tb is int and ta is T and a.op in ('zext', 'sext') and pred in ('eq', 'slt', 'ult'):
        x, w0 = a.args[0], a.args[1]
        if a.op == 'sext' and pred in ('eq', 'slt'):
            if -(1 << (w0 - 1)) <= b < (1 << (w0 - 1)):
                return _icmpT(pred, x, b, w0)
            return False if pred == 'eq' else b > 0
        if a.op == 'zext':
            if pred == 'slt' and b < 0:
                return False
            ub = uns(b, w) if pred == 'ult' else b
            if 0 <= ub < (1 << w0):
                return _icmpT('eq' if pred == 'eq' else 'ult', x, wrap(ub, w0), w0)
            return False if pred == 'eq' else ub > 0
    if pred in ('sgt', 'sge', 'ugt', 'uge'):
        return _icmpT(_FLIP[pred], b, a, w)
    if a is b:
        return pred in ('eq', 'sle', 'ule')
    if pred in ('sle', 'ule'):
        return bnot(_icmpT('slt' if pred == 'sle' else 'ult', b, a, w))
    if pred == 'slt':
        if tb is int and b == -(1 << (w - 1)): return False
        if ta is int and a == (1 << (w - 1)) - 1: return False
        if ta is int:               # c < x  ==  not (x < c+1)
            return bnot(_icmpT('slt', b, a + 1, w))
    if pred == 'eq' and ta is int:
        a, b = b, a
        ta, tb = tb, ta
    elif pred == 'eq' and tb is not int and a.id > b.id:
        a, b = b, a
    return atom(mk('icmp', (pred, w, a, b), 'bool'))


def icmp(pred, a, b, w):
    if type(a) is Node or type(b) is Node:
        return map2(lambda x, y: _icmpT(pred, x, y, w), a, b)
    return _icmpT(pred, a, b, w)


def _castT(op, a, w0, w1):
    if a is UNDEF:
        return a
    if type(a) is bool:
        if op == 'zext': return 1 if a else 0
        if op == 'sext': return -1 if a else 0
        raise KeyError(op)
    if type(a) is int:
        if op == 'sext': return a
        if op == 'zext': return wrap(uns(a, w0), w1)
        if op == 'trunc':
            if w1 == 1:
                return bool(a & 1)
            return wrap(a, w1)
    if BASE is not None:
        c = _lin(a, w0)
        if c is not None:
            if op == 'trunc' and w1 == 32:
                return _ibinT('add', BASE[32], c, 32) if c else BASE[32]
            if op in ('sext', 'zext') and w1 == 64 and _range(a, w0) is not None:
                return _ibinT('add', BASE[64], c, 64) if c else BASE[64]
    if op == 'trunc' and w1 == 1:
        return atom(mk('icmp', ('eq', w0, _ibinT('and', a, 1, w0), 1), 'bool'))
    if op == 'trunc' and a.op in ('zext', 'sext') and a.args[0].sort == 'i%d' % w1:
        return a.args[0]
    return mk(op, (a, w0, w1), 'i%d' % w1)


def icast(op, a, w0, w1):
    if type(a) is Node:
        return map1(lambda x: _castT(op, x, w0, w1), a)
    return _castT(op, a, w0, w1)


# ------------------------------------------------- pruning by order theory
_prune_memo = {}


def _isord(t):
    return t.op == 'olt'


def prune(n, limit=20000):
    """remove branches of a diagram that contradict transitivity of < (total
    order, valid when no operand is NaN).  Returns n unchanged if too big."""
    if type(n) is not Node or not NONAN:
        return n
    r = _prune_memo.get(n)
    if r is not None:
        return r
    budget = [limit]
    memo = {}

    def supp(x, cache={}):
        return None

    # facts: list of (a, b, strict) meaning a<b (strict) or a<=b; kept as closure dict
    def implied(lt, a, b):
        """True/False/None for a<b under closure lt: dict (x,y)->strict bool meaning x<y or x<=y"""
        s = lt.get((a, b))
        if s is True:
            return True
        if (b, a) in lt:          # b<=a or b<a
            return False
        return None

    def add(lt, a, b, strict):
        new = dict(lt)
        preds = [(a, False)] + [(x, s) for (x, y), s in lt.items() if y is a]
        succs = [(b, False)] + [(y, s) for (x, y), s in lt.items() if x is b]
        for x, s1 in preds:
            for y, s2 in succs:
                if x is y:
                    continue
                k = (x, y)
                v = s1 or s2 or strict
                if v or k not in new:
                    new[k] = v
        return new

    def constcmp(a, b):
        if a.op == 'const' and b.op == 'const':
            return a.val < b.val
        return None

    def go(x, lt):
        if type(x) is not Node:
            return x
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        t = ATOMS[x.var]
        if t.op != 'olt':
            h = go(x.hi, lt); l = go(x.lo, lt)
            return node(x.var, h, l) if h is not x.hi or l is not x.lo else x
        a, b = t.args
        im = implied(lt, a, b)
        if im is True:
            return go(x.hi, lt)
        if im is False:
            return go(x.lo, lt)
        h = go(x.hi, add(lt, a, b, True))
        l = go(x.lo, add(lt, b, a, False))
        return node(x.var, h, l)
    try:
        r = go(n, {})
    except OverflowError:
        r = n
    _prune_memo[n] = r
    return r


def set_nonan(v):
    global NONAN
    NONAN = v
