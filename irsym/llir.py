"""Parser for textual LLVM-18 IR (opaque pointers) and code generator: every
basic block is compiled to a Python function over the symbolic value domain of
terms.py.  Nothing here knows about TA-Lib."""
import re, struct
from . import terms as tm


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'size', 'align', 'offs', 'packed')


def mkint(w):
    t = Ty(); t.k = 'i'; t.w = w
    t.size = max(1, w // 8); t.align = t.size
    return t


I = {w: mkint(w) for w in (1, 8, 16, 32, 64)}


def _fp(w):
    t = Ty(); t.k = 'f'; t.w = w; t.size = w // 8; t.align = t.size
    return t


F64 = _fp(64)
F32 = _fp(32)
PTR = Ty(); PTR.k = 'p'; PTR.w = 64; PTR.size = 8; PTR.align = 8
VOID = Ty(); VOID.k = 'v'; VOID.size = 0; VOID.align = 1; VOID.w = 0


def mkarr(n, el):
    t = Ty(); t.k = 'a'; t.n = n; t.el = el
    t.size = n * el.size; t.align = el.align
    return t


def mkstruct(els, packed=False):
    t = Ty(); t.k = 's'; t.el = els; t.packed = packed
    off = 0; al = 1; offs = []
    for e in els:
        a = 1 if packed else e.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += e.size
        al = max(al, a)
    t.offs = offs
    t.size = (off + al - 1) // al * al
    t.align = al
    return t


TOK = re.compile(r'\s*(%[-\w.$]+|%"[^"]*"|@[-\w.$]+|@"[^"]*"|c"[^"]*"|"[^"]*"|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|!\d+|![\w.]+|#\d+|\.\.\.|[\w.]+|[\[\]{}()<>,=*!:|])')

PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'immarg', 'signext', 'zeroext',
               'noalias', 'returned', 'inreg', 'nofree', 'dead_on_unwind', 'writable'}


class Lex:
    def __init__(self, s):
        self.toks = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def acc(self, t):
        if self.i < len(self.toks) and self.toks[self.i] == t:
            self.i += 1
            return True
        return False

    def exp(self, t):
        x = self.next()
        if x != t:
            raise Unsupported('expected %r got %r in %r' % (t, x, self.toks))


class Module:
    """one .ll file"""

    def __init__(self, name, text):
        self.name = name
        self.text = text
        self.types = {}
        self.tydefs = {}
        self.globs = {}
        self.funcs = {}
        self.decls = set()
        for m in re.finditer(r'^(%[-\w.$]+) = type (.*)$', text, re.M):
            self.tydefs[m.group(1)] = m.group(2)
        for m in re.finditer(r'^@([-\w.$]+) = (.*)$', text, re.M):
            self.globs[m.group(1)] = m.group(2)
        for m in re.finditer(r'^define ([^\n]*?)@([-\w.$]+)\(([^\n]*)\{\n(.*?)^\}', text, re.M | re.S):
            self.funcs[m.group(2)] = (m.group(1), m.group(3), m.group(4))

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = self.parse_type(Lex(self.tydefs[n]))
        return t

    def parse_type(self, L):
        t = L.next()
        if t == 'ptr':
            r = PTR
        elif t[0] == 'i' and t[1:].isdigit():
            r = I.get(int(t[1:])) or mkint(int(t[1:]))
        elif t == 'double':
            r = F64
        elif t == 'float':
            r = F32
        elif t == 'void':
            r = VOID
        elif t[0] == '%':
            r = self.named(t)
        elif t == '[':
            n = int(L.next()); L.exp('x')
            el = self.parse_type(L)
            L.exp(']')
            r = mkarr(n, el)
        elif t == '{':
            els = []
            if not L.acc('}'):
                while True:
                    els.append(self.parse_type(L))
                    if L.acc('}'):
                        break
                    L.exp(',')
            r = mkstruct(els)
        elif t == '<' and L.peek() == '{':
            L.next()
            els = []
            while True:
                els.append(self.parse_type(L))
                if L.acc('}'):
                    break
                L.exp(',')
            L.exp('>')
            r = mkstruct(els, True)
        else:
            raise Unsupported('type %r' % t)
        return r


def parse_float(tok, ty):
    if tok.startswith('0x'):
        v = struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    else:
        v = float(tok)
    return tm.fc(v, 'f64' if ty.w == 64 else 'f32')


class Const:
    """lazily-evaluated constant needing the linker (globals)"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name; self.off = off


AGG0 = object()


def parse_value(M, L, ty):
    """returns ('r', name) | python value | Const | list for aggregates | AGG0"""
    t = L.next()
    if t[0] == '%':
        return ('r', t)
    if t[0] == '@':
        return Const(t[1:].strip('"'))
    if t == 'null':
        return (0, 0)
    if t in ('undef', 'poison'):
        return tm.UNDEF
    if t == 'zeroinitializer':
        return AGG0
    if t == 'true':
        return True
    if t == 'false':
        return False
    if t == 'getelementptr':
        while L.peek() in ('inbounds', 'inrange'):
            L.next()
        L.exp('(')
        sty = M.parse_type(L)
        L.exp(',')
        M.parse_type(L)
        base = parse_value(M, L, PTR)
        idx = []
        while L.acc(','):
            while L.peek() == 'inrange':
                L.next()
            ity = M.parse_type(L)
            idx.append(parse_value(M, L, ity))
        L.exp(')')
        off = gep_const(sty, idx)
        if isinstance(base, Const):
            return Const(base.name, base.off + off)
        return (base[0], base[1] + off)
    if t == '[':
        r = []
        if L.acc(']'):
            return r
        while True:
            ety = M.parse_type(L)
            r.append(parse_value(M, L, ety))
            if L.acc(']'):
                return r
            L.exp(',')
    if t == '{' or t == '<':
        if t == '<':
            L.exp('{')
        r = []
        while True:
            ety = M.parse_type(L)
            r.append(parse_value(M, L, ety))
            if L.acc('}'):
                break
            L.exp(',')
        if t == '<':
            L.exp('>')
        return r
    if t.startswith('c"'):
        s = t[2:-1]
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)
    if ty.k == 'i':
        return int(t) if ty.w > 1 else bool(int(t))
    if ty.k == 'f':
        return parse_float(t, ty)
    raise Unsupported('value %r' % t)


def gep_const(sty, idx):
    off = idx[0] * sty.size
    cur = sty
    for i in idx[1:]:
        if cur.k == 's':
            off += cur.offs[i]
            cur = cur.el[i]
        else:
            off += i * cur.el.size
            cur = cur.el
    return off


class Fn:
    pass


FAST = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'srem', 'udiv', 'urem'}
CASTS = {'sext', 'zext', 'trunc'}


def split_blocks(body):
    blocks = []
    cur = None
    buf = None
    for line in body.split('\n'):
        if not line.strip():
            continue
        if line[0] != ' ' and line[0] not in ']':
            m = re.match(r'([-\w.$]+|"[^"]*"):', line)
            if not m:
                continue
            cur = (m.group(1), [])
            blocks.append(cur)
            continue
        if cur is None:
            cur = (None, [])
            blocks.append(cur)
        if buf is not None:
            buf += ' ' + line.strip()
            if line.strip().startswith(']'):
                cur[1].append(buf)
                buf = None
            continue
        s = line.strip()
        if s.startswith('switch'):
            buf = s
            if s.endswith(']'):
                cur[1].append(s); buf = None
            continue
        cut = s.find(', !')
        if cut >= 0:
            s = s[:cut]
        cur[1].append(s)
    return blocks


def compile_fn(M, name, E):
    """parse + generate python code for function `name` of module M"""
    attrs, params, body = M.funcs[name]
    f = Fn()
    f.name = name
    f.mod = M
    # parameters
    depth = 0
    end = 0
    L = Lex(params)
    f.pnames = []
    f.ptypes = []
    if not L.acc(')'):
        while True:
            if L.acc('...'):
                L.exp(')')
                break
            ty = M.parse_type(L)
            while L.peek()[0] != '%':
                t = L.next()
                if t in ('align', 'dereferenceable', 'byval', 'sret'):
                    if L.peek() == '(':
                        while L.next() != ')':
                            pass
                    else:
                        L.next()
            f.ptypes.append(ty)
            f.pnames.append(L.next())
            if L.acc(')'):
                break
            L.exp(',')
    regs = {}

    def reg(n):
        i = regs.get(n)
        if i is None:
            i = regs[n] = len(regs)
        return i
    for p in f.pnames:
        reg(p)
    blocks = split_blocks(body)
    # number of unnamed entry = len(params) if all unnamed
    bidx = {}
    for i, (bn, _) in enumerate(blocks):
        if bn is None:
            bn = str(sum(1 for p in f.pnames if p[1:].isdigit()))
        bidx['%' + bn] = i
    nb = len(blocks)
    consts = []
    cidx = {}

    def kon(v):
        if type(v) is int or type(v) is bool:
            return repr(v)
        k = (type(v), v) if not isinstance(v, (list, Const)) else id(v)
        if k in cidx:
            return cidx[k]
        nm = 'K%d' % len(consts)
        consts.append(v)
        cidx[k] = nm
        return nm

    uses = [set() for _ in range(nb)]
    defs = [set() for _ in range(nb)]
    cur = [0]

    def opnd(v):
        if type(v) is tuple and len(v) == 2 and v[0] == 'r':
            i = reg(v[1])
            if i not in defs[cur[0]]:
                uses[cur[0]].add(i)
            return 'R[%d]' % i
        if isinstance(v, Const):
            return kon(E.link(M, v))
        return kon(v)

    src = []
    phis = [[] for _ in range(nb)]   # per block: list of (reg, {pred: valuestr/reg})
    terms_ = [None] * nb
    edges = {}
    edgelist = []

    def edge(a, b):
        k = (a, b)
        if k not in edges:
            edges[k] = len(edgelist)
            edgelist.append(k)
        return edges[k]

    f.allocas = []
    for bi, (bn, ins) in enumerate(blocks):
        cur[0] = bi
        out = []
        for s in ins:
            L = Lex(s)
            dst = None
            if L.peek()[0] == '%' and L.peek(1) == '=':
                dst = reg(L.next())
                L.next()
            op = L.next()
            while op in ('tail', 'musttail', 'notail'):
                op = L.next()
            e = None
            if op in FAST:
                while L.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                    L.next()
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp(',')
                b = opnd(parse_value(M, L, ty))
                e = 'ibin(%r,%s,%s,%d)' % (op, a, b, ty.w)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp(',')
                b = opnd(parse_value(M, L, ty))
                e = 'fbin(%r,%s,%s,%r)' % (op, a, b, 'f%d' % ty.w)
            elif op == 'fneg':
                ty = M.parse_type(L)
                e = 'fneg(%s)' % opnd(parse_value(M, L, ty))
            elif op == 'icmp':
                p = L.next()
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp(',')
                b = opnd(parse_value(M, L, ty))
                e = 'icmp(%r,%s,%s,%d)' % (p, a, b, ty.w)
            elif op == 'fcmp':
                p = L.next()
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp(',')
                b = opnd(parse_value(M, L, ty))
                e = 'fcmp(%r,%s,%s)' % (p, a, b)
            elif op in CASTS:
                while L.peek() in ('nneg', 'nsw', 'nuw'):
                    L.next()
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp('to')
                t2 = M.parse_type(L)
                e = 'icast(%r,%s,%d,%d)' % (op, a, ty.w, t2.w)
            elif op in ('sitofp', 'uitofp'):
                while L.peek() in ('nneg',):
                    L.next()
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp('to')
                t2 = M.parse_type(L)
                e = 'sitofp(%s,%r,%r,%d)' % (a, 'f%d' % t2.w, op == 'uitofp', ty.w)
            elif op in ('fptosi', 'fptoui'):
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp('to')
                t2 = M.parse_type(L)
                e = 'fptosi(%s,%d)' % (a, t2.w)
            elif op == 'fpext' or op == 'fptrunc':
                ty = M.parse_type(L)
                e = '%s(%s)' % (op, opnd(parse_value(M, L, ty)))
            elif op == 'freeze':
                ty = M.parse_type(L)
                e = opnd(parse_value(M, L, ty))
            elif op == 'select':
                M.parse_type(L)
                c = opnd(parse_value(M, L, I[1])); L.exp(',')
                ty = M.parse_type(L)
                a = opnd(parse_value(M, L, ty)); L.exp(',')
                M.parse_type(L)
                b = opnd(parse_value(M, L, ty))
                e = 'E.select(S,%s,%s,%s)' % (c, a, b)
            elif op == 'alloca':
                ty = M.parse_type(L)
                n = 1
                if L.acc(','):
                    if L.peek() != 'align':
                        t2 = M.parse_type(L)
                        n = parse_value(M, L, t2)
                if n != 1:
                    raise Unsupported('dynamic alloca')
                f.allocas.append(dst)
                e = 'E.alloca(S,%d,%r)' % (ty.size, name)
            elif op == 'load':
                if L.acc('volatile'):
                    pass
                ty = M.parse_type(L); L.exp(',')
                M.parse_type(L)
                p = opnd(parse_value(M, L, PTR))
                e = 'E.load(S,%s,%d,%r)' % (p, ty.size, tycode(ty))
            elif op == 'store':
                L.acc('volatile')
                ty = M.parse_type(L)
                v = opnd(parse_value(M, L, ty)); L.exp(',')
                M.parse_type(L)
                p = opnd(parse_value(M, L, PTR))
                out.append('E.store(S,%s,%d,%s)' % (p, ty.size, v))
                continue
            elif op == 'getelementptr':
                while L.peek() in ('inbounds', 'nuw', 'nusw'):
                    L.next()
                sty = M.parse_type(L); L.exp(',')
                M.parse_type(L)
                base = opnd(parse_value(M, L, PTR))
                idx = []
                while L.acc(','):
                    ity = M.parse_type(L)
                    idx.append(parse_value(M, L, ity))
                coff = 0
                dyn = []
                cty = None
                for k, ix in enumerate(idx):
                    if k == 0:
                        sz = sty.size; cty = sty
                    elif cty.k == 's':
                        coff += cty.offs[ix]
                        cty = cty.el[ix]
                        continue
                    else:
                        cty = cty.el
                        sz = cty.size
                    if type(ix) is int:
                        coff += ix * sz
                    else:
                        dyn.append((opnd(ix), sz))
                e = base
                if not dyn:
                    if coff == 0 and False:
                        e = base
                    else:
                        e = 'E.gepc(%s,%d)' % (base, coff)
                elif len(dyn) == 1:
                    e = 'E.gep1(S,%s,%d,%s,%d)' % (base, coff, dyn[0][0], dyn[0][1])
                else:
                    e = 'E.gepc(%s,%d)' % (base, coff)
                    for d, sz in dyn:
                        e = 'E.gep1(S,%s,0,%s,%d)' % (e, d, sz)
            elif op == 'call':
                while L.peek() in ('fast', 'nnan', 'fastcc', 'ccc'):
                    L.next()
                while L.peek() in PARAM_ATTRS:
                    L.next()
                rty = M.parse_type(L)
                if L.peek() == '(':
                    while L.next() != ')':
                        pass
                callee = parse_value(M, L, PTR)
                L.exp('(')
                args = []
                if not L.acc(')'):
                    while True:
                        aty = M.parse_type(L)
                        while L.peek() in PARAM_ATTRS or L.peek() in ('align', 'dereferenceable', 'byval'):
                            t = L.next()
                            if t in ('align', 'dereferenceable', 'byval'):
                                if L.peek() == '(':
                                    while L.next() != ')':
                                        pass
                                else:
                                    L.next()
                        args.append(opnd(parse_value(M, L, aty)))
                        if L.acc(')'):
                            break
                        L.exp(',')
                if isinstance(callee, Const):
                    cn = callee.name
                    if cn.startswith('llvm.lifetime') or cn.startswith('llvm.dbg') or cn.startswith('llvm.assume'):
                        continue
                    e = 'E.call(S,%r,(%s),M)' % (cn, ''.join(a + ',' for a in args))
                else:
                    e = 'E.callptr(S,%s,(%s))' % (opnd(callee), ''.join(a + ',' for a in args))
                if rty.k == 'v' or dst is None:
                    out.append(e)
                    continue
            elif op == 'phi':
                ty = M.parse_type(L)
                d = {}
                while True:
                    L.exp('[')
                    v = parse_value(M, L, ty)
                    L.exp(',')
                    pb = bidx[L.next()]
                    L.exp(']')
                    d[pb] = v
                    if not L.acc(','):
                        break
                phis[bi].append((dst, d))
                defs[bi].add(dst)
                continue
            elif op == 'br':
                if L.acc('label'):
                    out.append('return %s' % ('@E%d@' % edge(bi, bidx[L.next()])))
                else:
                    M.parse_type(L)
                    c = opnd(parse_value(M, L, I[1])); L.exp(','); L.exp('label')
                    a = bidx[L.next()]; L.exp(','); L.exp('label')
                    b = bidx[L.next()]
                    if a == b:
                        out.append('return %s' % ('@E%d@' % edge(bi, a)))
                    else:
                        ea, eb = edge(bi, a), edge(bi, b)
                        out.append('c=%s' % c)
                        out.append('if c is True: return %d' % ea)
                        out.append('if c is False: return %d' % eb)
                        out.append('return (c,%d,%d)' % (ea, eb))
                continue
            elif op == 'switch':
                ty = M.parse_type(L)
                v = opnd(parse_value(M, L, ty)); L.exp(','); L.exp('label')
                d = bidx[L.next()]
                L.exp('[')
                cases = []
                while not L.acc(']'):
                    t2 = M.parse_type(L)
                    cv = parse_value(M, L, t2); L.exp(','); L.exp('label')
                    cases.append((cv, edge(bi, bidx[L.next()])))
                out.append('return E.switch(S,%s,%d,%r,%d)' % (v, edge(bi, d), cases, ty.w))
                continue
            elif op == 'ret':
                ty = M.parse_type(L)
                if ty.k == 'v':
                    out.append('return (None,)')
                else:
                    out.append('return (%s,)' % opnd(parse_value(M, L, ty)))
                continue
            elif op == 'unreachable':
                out.append('E.error(S,"unreachable executed")')
                continue
            elif op == 'extractvalue' or op == 'insertvalue':
                raise Unsupported(op)
            else:
                raise Unsupported('instruction %s' % s)
            out.append('R[%d]=%s' % (dst, e))
            defs[bi].add(dst)
        src.append('def b%d(E,S,R):' % bi)
        for o in out:
            src.append('  ' + re.sub(r'@E(\d+)@', r'\1', o))
        if not out:
            src.append('  pass')
    # edges
    f.edges = []
    phiuses = {}
    for ei, (a, b) in enumerate(edgelist):
        assigns = []
        pu = set()
        for dst, d in phis[b]:
            v = d[a]
            if type(v) is tuple and len(v) == 2 and v[0] == 'r':
                i = reg(v[1])
                pu.add(i)
                assigns.append((dst, 'R[%d]' % i))
            elif isinstance(v, Const):
                assigns.append((dst, kon(E.link(M, v))))
            else:
                assigns.append((dst, kon(v)))
        phiuses[ei] = pu
        if assigns:
            src.append('def e%d(R):' % ei)
            src.append('  ' + ','.join('R[%d]' % d for d, _ in assigns) + '=' + ','.join(x for _, x in assigns))
        f.edges.append([a, b, bool(assigns)])
    ns = {'ibin': tm.ibin, 'fbin': tm.fbin, 'fneg': tm.fneg, 'icmp': tm.icmp, 'fcmp': tm.fcmp, 'icast': tm.icast,
          'sitofp': tm.sitofp, 'fptosi': tm.fptosi, 'fpext': tm.fpext, 'fptrunc': tm.fptrunc, 'M': M}
    for i, c in enumerate(consts):
        ns['K%d' % i] = c
    exec(compile('\n'.join(src), '<%s>' % name, 'exec'), ns)
    f.nregs = len(regs)
    f.blocks = [ns['b%d' % i] for i in range(nb)]
    for ei, e in enumerate(f.edges):
        e.append(ns['e%d' % ei] if e[2] else None)
    f.edges = [(a, b, fn) for a, b, _, fn in f.edges]
    # CFG analyses
    succ = [[] for _ in range(nb)]
    for ei, (a, b, _) in enumerate(f.edges):
        succ[a].append((b, ei))
    order = []
    seen = [False] * nb
    stack = [(0, iter(succ[0]))]
    seen[0] = True
    while stack:
        n, it = stack[-1]
        for b, _ in it:
            if not seen[b]:
                seen[b] = True
                stack.append((b, iter(succ[b])))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    rpo = [1 << 30] * nb
    for i, b in enumerate(order):
        rpo[b] = i
    # dominators (simple iterative bitsets)
    preds = [[] for _ in range(nb)]
    for a, b, _ in f.edges:
        if seen[a]:
            preds[b].append(a)
    full = (1 << nb) - 1
    dom = [full] * nb
    dom[0] = 1
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            d = full
            for p in preds[b]:
                d &= dom[p]
            d |= 1 << b
            if d != dom[b]:
                dom[b] = d; ch = True
    loops = {}
    back = set()
    for ei, (a, b, _) in enumerate(f.edges):
        if seen[a] and dom[a] >> b & 1:
            back.add(ei)
            body = loops.setdefault(b, {b})
            st = [a]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
    nest = [[] for _ in range(nb)]
    for h in sorted(loops, key=lambda h: rpo[h]):
        for x in loops[h]:
            nest[x].append(h)
    f.rpo = rpo
    f.nest = nest
    f.back = back
    # liveness
    live = [set(u) for u in uses]
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s_, ei in succ[b]:
                o |= (live[s_] - {d for d, _ in phis[s_]})
                o |= phiuses[ei]
            n = uses[b] | (o - defs[b])
            if n != live[b]:
                live[b] = n; ch = True
    al = set(f.allocas)
    f.live = [sorted(live[b] | {d for d, _ in phis[b]} | al) for b in range(nb)]
    f.np = len(f.pnames)
    return f


def tycode(ty):
    if ty.k == 'i':
        return 'i%d' % ty.w
    if ty.k == 'f':
        return 'f%d' % ty.w
    if ty.k == 'p':
        return 'p'
    raise Unsupported('load of aggregate')
