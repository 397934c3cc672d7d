"""Merging symbolic executor over the code generated by llir.py."""
import itertools
import struct
from . import terms as tm
from .terms import Node, T, UNDEF, ite, band, bor, bnot, restrict, leaves, fmerge
from .llir import Module, Const, AGG0, compile_fn, Unsupported, VOID


class PathAbort(Exception):
    pass


class ZeroCell:
    def __repr__(self):
        return 'ZERO'


ZERO = ZeroCell()


class Obj:
    __slots__ = ('cells', 'size', 'dflt', 'alive', 'tok', 'name', 'kind')

    def clone(self, tok):
        o = Obj()
        o.cells = dict(self.cells); o.size = self.size; o.dflt = self.dflt
        o.alive = self.alive; o.tok = tok; o.name = self.name; o.kind = self.kind
        return o


_tok = itertools.count(1)


class State:
    __slots__ = ('mem', 'pc', 'tok')

    def __init__(self):
        self.mem = {}
        self.pc = True
        self.tok = next(_tok)

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        self.tok = next(_tok)
        return s


def zero_of(code):
    c = code[0]
    if c == 'f':
        return tm.fc(0.0, code)
    if c == 'p':
        return (0, 0)
    return False if code == 'i1' else 0


def zero_like(v):
    while type(v) is Node:
        v = v.hi
    if type(v) is T:
        if v.sort[0] == 'f':
            return tm.fc(0.0, v.sort)
        return 0
    if type(v) is tuple:
        return (0, 0)
    if type(v) is bool:
        return False
    if v is UNDEF or v is ZERO:
        return v
    return 0


def fp_leaves(v):
    while type(v) is Node:
        v = v.hi
    return v is UNDEF or type(v) is T and v.sort == 'f64'


def bytes_of(size, v):
    """little-endian bytes of a concrete cell, None when they are not known"""
    if v is ZERO or v == (0, 0) and type(v) is tuple:
        return bytes(size)
    if type(v) is bool:
        v = int(v)
    if type(v) is int:
        return (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
    if type(v) is T and v.op == 'const' and isinstance(v.val, float):
        return struct.pack('<d' if size == 8 else '<f', v.val)
    return None


def from_bytes(b, code):
    if b is None:
        return UNDEF
    if code[0] == 'i':
        return tm.wrap(int.from_bytes(b, 'little'), 8 * len(b))
    if code == 'p':
        return (0, 0) if not any(b) else UNDEF
    return tm.fc(struct.unpack('<d' if len(b) == 8 else '<f', b)[0], code)


class Linker:
    """all modules of the program; shared by executors of one process"""

    def __init__(self, paths):
        self.index = {}
        self.gindex = {}
        self.mods = {}
        self.paths = {}
        import re
        for name, path in paths:
            self.paths[name] = path
            txt = open(path).read()
            self.mods[name] = None
            for m in re.finditer(r'^define ([^\n]*?)@([-\w.$]+)\(', txt, re.M):
                if 'internal' not in m.group(1) and 'private' not in m.group(1):
                    self.index[m.group(2)] = name
            for m in re.finditer(r'^@([-\w.$]+) = ([^\n]{0,60})', txt, re.M):
                d = m.group(2)
                if d.startswith('external') or 'internal' in d or 'private' in d:
                    continue
                self.gindex[m.group(1)] = name

    def module(self, name):
        m = self.mods[name]
        if m is None:
            m = self.mods[name] = Module(name, open(self.paths[name]).read())
        return m


class Engine:
    def __init__(self, linker):
        self.lk = linker
        self.fns = {}
        self.gids = {}
        self.gobj = {}
        self.gname = {}
        self.fids = {}
        self.fid_rev = {}
        self.nextid = 1
        self.errors = []       # (message, condition)
        self.unrolls = []      # (function, condition): loop bound hit
        self.maxiter = 400
        self.steps = 0
        self.nstates = 0
        self.maxsteps = 3_000_000
        self.alloc_fault = False
        self.alloc_atoms = []
        self.io_fault = False
        self.io_atoms = []
        self.io_log = []
        self.heap_ids = []
        self.encoded = set()
        self.stop_alloc = False
        self.readhook = None
        self.stubs = {}
        self.depth = 0
        self.trace_calls = None

    # ------------------------------------------------------------ linking
    def newid(self):
        i = self.nextid
        self.nextid += 1
        return i

    def fn_id(self, M, name):
        m = self.find_fn(name, M)
        key = (m.name if m else None, name)
        i = self.fids.get(key)
        if i is None:
            i = -(len(self.fids) + 1)
            self.fids[key] = i
            self.fid_rev[i] = (m, name)
        return i

    def find_fn(self, name, M=None):
        if M is not None and name in M.funcs:
            return M
        n = self.lk.index.get(name)
        return self.lk.module(n) if n else None

    def link(self, M, c):
        """Const -> pointer"""
        name = c.name
        if name in M.globs and not M.globs[name].startswith('external'):
            return (self.glob(M, name), c.off)
        if name in M.funcs:
            return (self.fn_id(M, name), c.off)
        if name in self.lk.gindex:
            return (self.glob(self.lk.module(self.lk.gindex[name]), name), c.off)
        return (self.fn_id(M, name), c.off)

    def glob(self, M, name):
        k = (M.name, name)
        i = self.gids.get(k)
        if i is None:
            i = self.newid()
            self.gids[k] = i
            self.gname[i] = name
            self.gobj[i] = (M, name)      # lazy
        return i

    def gget(self, i):
        o = self.gobj.get(i)
        if type(o) is tuple:
            o = self.gobj[i] = self.mkglob(*o)
        return o

    def mkglob(self, M, name):
        from .llir import Lex, parse_value
        L = Lex(M.globs[name])
        ro = False
        while True:
            t = L.next()
            if t == 'constant':
                ro = True
                break
            if t == 'global':
                break
        ty = M.parse_type(L)
        v = parse_value(M, L, ty)
        o = Obj()
        o.cells = {}; o.size = ty.size; o.dflt = 'zero'; o.alive = True; o.tok = 0; o.name = '@' + name
        o.kind = 'const' if ro else 'global'

        def put(ty, v, off):
            if v is AGG0:
                return
            if ty.k == 'a':
                if isinstance(v, bytes):
                    for i, b in enumerate(v):
                        o.cells[off + i] = (1, b - 256 if b > 127 else b)
                    return
                for i, x in enumerate(v):
                    put(ty.el, x, off + i * ty.el.size)
            elif ty.k == 's':
                for i, x in enumerate(v):
                    put(ty.el[i], x, off + ty.offs[i])
            else:
                if isinstance(v, Const):
                    v = self.link(M, v)
                o.cells[off] = (ty.size, v)
        put(ty, v, 0)
        return o

    def getfn(self, M, name):
        k = (M.name, name)
        f = self.fns.get(k)
        if f is None:
            f = self.fns[k] = compile_fn(M, name, self)
        return f

    # ------------------------------------------------------------ errors
    def error(self, S, msg, cond=True):
        c = band(S.pc, cond)
        if c is False:
            return
        self.errors.append((msg, c))
        S.pc = band(S.pc, bnot(cond)) if cond is not True else False
        if S.pc is False:
            raise PathAbort(msg)

    # ------------------------------------------------------------ memory
    def new(self, S, size, dflt, kind, name):
        i = self.newid()
        o = Obj()
        o.cells = {}; o.size = size; o.dflt = dflt; o.alive = True; o.tok = S.tok; o.name = name; o.kind = kind
        S.mem[i] = o
        return i

    def alloca(self, S, size, name):
        return (self.new(S, size, 'undef', 'stack', 'alloca ' + name), 0)

    def wobj(self, S, i):
        o = S.mem.get(i)
        if o is None:
            o = self.gget(i)
            if o is None:
                return None
            o = o.clone(S.tok)
            S.mem[i] = o
        elif o.tok != S.tok:
            o = o.clone(S.tok)
            S.mem[i] = o
        return o

    def robj(self, S, i):
        o = S.mem.get(i)
        return o if o is not None else self.gget(i)

    def describe(self, S, p):
        o = self.robj(S, p[0])
        if p[0] == 0:
            return 'NULL+%s' % (p[1],)
        if o is None:
            return 'dangling/unknown object +%s' % (p[1],)
        return '%s+%s (size %s)' % (o.name, p[1], o.size)

    def check(self, S, o, p, size, cond, what):
        """returns condition under which access is good"""
        if o is None or p[0] <= 0:
            self.error(S, '%s of %d bytes through invalid pointer %s' % (what, size, self.describe(S, p)), cond)
            return False
        if type(p[1]) is not int:
            raise Unsupported('symbolic offset')
        if p[1] < 0 or p[1] + size > o.size:
            self.error(S, '%s of %d bytes out of bounds: %s' % (what, size, self.describe(S, p)), cond)
            return False
        if o.alive is not True:
            bad = band(cond, bnot(o.alive))
            if band(S.pc, bad) is not False:
                self.error(S, '%s after free: %s' % (what, self.describe(S, p)), bad)
        return True

    def load(self, S, p, size, code):
        if type(p) is tuple:
            o = S.mem.get(p[0])
            if o is None:
                o = self.gget(p[0])
            off = p[1]
            if o is None or type(off) is not int or off < 0 or off + size > o.size or o.alive is not True:
                if self.check(S, o, p, size, True, 'read') is False:
                    return UNDEF
            if self.readhook is not None:
                self.readhook(S, p, size)
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
                if v is ZERO:
                    return zero_of(code)
                if type(v) is Node:
                    v = restrict(v, S.pc)
                return self.conv(v, code)
            return self.load_slow(S, o, off, size, code)
        if p is UNDEF:
            self.error(S, 'read through uninitialised pointer')
        p = restrict(p, S.pc)
        if type(p) is tuple:
            return self.load(S, p, size, code)
        res = None
        for c, q in leaves(p):
            if c is not True and band(c, S.pc) is False:
                continue
            if q is UNDEF:
                self.error(S, 'read through uninitialised pointer', c)
                continue
            o = self.robj(S, q[0])
            if self.check(S, o, q, size, c, 'read') is False:
                continue
            v = self.load(S, q, size, code) if o.alive is True else self.load_alive(S, o, q, size, code)
            res = v if res is None else fmerge(c, v, res)
        if res is None:
            return UNDEF
        return restrict(res, S.pc) if type(res) is Node else res

    def load_alive(self, S, o, q, size, code):
        c = o.cells.get(q[1])
        if c is not None and c[0] == size:
            return zero_of(code) if c[1] is ZERO else self.conv(c[1], code)
        return self.load_slow(S, o, q[1], size, code)

    def conv(self, v, code):
        """cell of a different type read back"""
        if type(v) is T:
            if v.sort[0] == code[0]:
                return v
        elif type(v) is int:
            if code[0] == 'i':
                return v
            if v == 0:
                return zero_of(code)
        elif type(v) is tuple:
            if code == 'p':
                return v
        elif type(v) is bool:
            if code == 'i8': return int(v)
            return v
        else:
            if v is UNDEF:
                return v
            x = v
            while type(x) is Node:
                x = x.hi
            if x is UNDEF:
                return v
            if type(x) is T and x.sort[0] == code[0] or type(x) is int and code[0] == 'i' or type(x) is tuple and code == 'p' or type(x) is bool:
                return v
        if type(v) is T and v.op == 'const' and v.val == 0.0 and code[0] in 'ip':
            return zero_of(code)
        if code == 'i64' and fp_leaves(v):
            return v                 # carried through an integer register unchanged
        b = bytes_of(8 if code in ('i64', 'f64', 'p') else 4 if code in ('i32', 'f32') else 1, v)
        return from_bytes(b, code)

    def load_slow(self, S, o, off, size, code):
        hit = False
        for d in range(-7, size):
            c = o.cells.get(off + d)
            if c is not None and off + d + c[0] > off:
                hit = True
                break
        if hit:
            b = []
            for x in range(off, off + size):
                for y in range(x, x - 8, -1):
                    c = o.cells.get(y)
                    if c is not None:
                        break
                if c is None or y + c[0] <= x:
                    b.append(0 if o.dflt == 'zero' else None)
                else:
                    cb = bytes_of(c[0], c[1])
                    b.append(cb[x - y] if cb is not None else None)
            return from_bytes(None if None in b else bytes(b), code)
        if o.dflt == 'zero':
            return zero_of(code)
        if o.dflt == 'undef':
            return UNDEF
        return o.dflt(off, size, code)

    def store(self, S, p, size, v):
        if type(p) is tuple:
            o = self.wobj(S, p[0])
            off = p[1]
            if o is None or type(off) is not int or off < 0 or off + size > o.size or o.alive is not True:
                if self.check(S, o, p, size, True, 'write') is False:
                    return
            if o.kind == 'const' or o.kind == 'in':
                self.error(S, 'write to read-only memory %s' % self.describe(S, p))
            self.put(o, off, size, v)
            return
        if p is UNDEF:
            self.error(S, 'write through uninitialised pointer')
        p = restrict(p, S.pc)
        if type(p) is tuple:
            return self.store(S, p, size, v)
        for c, q in leaves(p):
            if c is not True and band(c, S.pc) is False:
                continue
            if q is UNDEF:
                self.error(S, 'write through uninitialised pointer', c)
                continue
            o = self.wobj(S, q[0]) if q[0] > 0 else None
            if self.check(S, o, q, size, c, 'write') is False:
                continue
            if o.kind == 'const' or o.kind == 'in':
                self.error(S, 'write to read-only memory %s' % self.describe(S, q), c)
                continue
            off = q[1]
            old = o.cells.get(off)
            mixed = [x for x in range(off - 7, off + size) if x in o.cells and x + o.cells[x][0] > off and (x != off or old[0] != size)]
            if mixed:
                # overlaps cells of other shapes: their contents are unknown under this condition
                for x in mixed:
                    z, w = o.cells[x]
                    o.cells[x] = (z, fmerge(c, UNDEF, zero_like(v) if w is ZERO and z == size else w))
                continue
            if old is None:
                ov = zero_like(v) if o.dflt == 'zero' else UNDEF
            else:
                ov = zero_like(v) if old[1] is ZERO else old[1]
            o.cells[q[1]] = (size, fmerge(c, v, ov))

    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        if len(o.cells) > size * 4 + 64:
            rng = [x for x in range(off - 7, off + size) if x in o.cells]
        else:
            rng = [x for x in o.cells if off - 8 < x < off + size]
        for x in rng:
            s, v = o.cells[x]
            if x + s <= off:
                continue
            if x >= off and x + s <= off + size:
                del o.cells[x]
            elif v is ZERO or v is UNDEF:
                del o.cells[x]
                for y in range(x, x + s):
                    if y < off or y >= off + size:
                        o.cells[y] = (1, v)
            elif type(v) is int:
                del o.cells[x]
                for y in range(x, x + s):
                    if y < off or y >= off + size:
                        o.cells[y] = (1, tm.wrap(tm.uns(v, s * 8) >> (8 * (y - x)), 8))
            else:
                del o.cells[x]
                b = bytes_of(s, v)
                for y in range(x, x + s):
                    if y < off or y >= off + size:
                        o.cells[y] = (1, UNDEF if b is None else tm.wrap(b[y - x], 8))

    def gepc(self, p, k):
        if type(p) is tuple:
            return (p[0], p[1] + k)
        return tm.map1(lambda x: x if x is UNDEF else (x[0], x[1] + k), p)

    def gep1(self, S, p, k, i, sz):
        if type(p) is tuple and type(i) is int:
            return (p[0], p[1] + k + i * sz)
        if type(i) is Node:
            i = restrict(i, S.pc)
        if type(p) is Node:
            p = restrict(p, S.pc)

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if type(y) is not int:
                raise Unsupported('symbolic index %r' % y)
            return (x[0], x[1] + k + y * sz)
        if self.has_sym(i):
            i = self.expand_index(S, p, k, i, sz)
        return tm.map2(f, p, i)

    def has_sym(self, i):
        return any(type(x) is T for x in tm.leafset(i))

    def expand_index(self, S, p, k, i, sz):
        """symbolic integer index: case-split over the object's valid slots"""
        if type(p) is not tuple:
            raise Unsupported('symbolic index through symbolic pointer')
        o = self.robj(S, p[0])
        if o is None:
            raise Unsupported('symbolic index of invalid object')
        lo = -((p[1] + k) // sz)
        hi = (o.size - p[1] - k) // sz

        if hi - lo > 200:
            raise Unsupported('symbolic index over large object')

        def ex(x):
            if type(x) is not T:
                return x
            r = hi + (1 << 20)        # out of range representative
            for c, j in reversed([(tm._icmpT('eq', x, j, 64), j) for j in self.feasible(S.pc, x, lo, hi)]):
                r = ite(c, j, r)
            return r
        return restrict(tm.map1(ex, i), S.pc)

    def feasible(self, pc, x, lo, hi):
        """values of a symbolic index that the path condition allows"""
        import z3
        from . import smt
        tr = smt.Tr('UF')
        g = tr.diagram(pc) if pc is not True else z3.BoolVal(True)
        t = tr.term(x)
        sv = z3.Solver()
        sv.set('timeout', 2000)
        sv.add(tr.side if hasattr(tr, 'side') else [])
        sv.add(g)
        if tm.BASE is not None:
            sv.add(smt.base_side())
        out = []
        for j in range(lo, hi):
            sv.push(); sv.add(t == j)
            if sv.check() != z3.unsat:
                out.append(j)
            sv.pop()
        return out

    # ------------------------------------------------------------ stubs
    def st_malloc(self, S, n, zero=False, what='malloc'):
        if self.stop_alloc:
            self.error(S, 'memory request')
        n = restrict(n, S.pc) if type(n) is Node else n
        if type(n) is Node:
            for c, v in leaves(n):
                if v is UNDEF:
                    self.error(S, 'allocation of uninitialised size', c)
            n = restrict(n, S.pc)
        if n is UNDEF:
            self.error(S, 'allocation of uninitialised size')
        if type(n) is not int:
            raise Unsupported('symbolic allocation size %r' % n)
        if n < 0:
            self.error(S, 'huge allocation size %d' % n)
        i = self.new(S, n, 'zero' if zero else 'undef', 'heap', '%s#%d(%d)' % (what, len(self.heap_ids), n))
        self.heap_ids.append(i)
        p = (i, 0)
        if self.alloc_fault:
            a = tm.fresh_bool('alloc_fail_%d' % len(self.alloc_atoms))
            self.alloc_atoms.append((a, S.pc))
            S.mem[i].alive = bnot(a)
            return ite(a, (0, 0), p)
        return p

    def st_free(self, S, p):
        if type(p) is Node:
            p = restrict(p, S.pc)
        for c, q in leaves(p):
            if q is UNDEF:
                self.error(S, 'free of uninitialised pointer', c)
                continue
            if q == (0, 0):
                continue
            o = self.wobj(S, q[0]) if q[0] > 0 else None
            if o is None or o.kind != 'heap' or q[1] != 0:
                self.error(S, 'free of non-heap pointer %s' % self.describe(S, q), c)
                continue
            live = restrict(o.alive, S.pc)
            if live is not True:
                bad = band(c, bnot(live))
                if band(S.pc, bad) is not False:
                    self.error(S, 'double free of %s' % o.name, bad)
            o.alive = band(o.alive, bnot(band(c, S.pc) if c is not True else S.pc)) if c is not True else False
        return None

    def st_memcpy(self, S, d, s, n):
        n = restrict(n, S.pc) if type(n) is Node else n
        s = restrict(s, S.pc) if type(s) is Node else s
        d = restrict(d, S.pc) if type(d) is Node else d
        if n == 0:
            return d
        if type(n) is not int:
            raise Unsupported('symbolic memcpy')
        if type(s) is Node:
            # copy each source alternative then merge cellwise
            acc = None
            for c, q in leaves(s):
                if band(c, S.pc) is False:
                    continue
                o = self.robj(S, q[0]) if q is not UNDEF else None
                if self.check(S, o, q if q is not UNDEF else (0, 0), n, c, 'read (memcpy)') is False:
                    continue
                cs = self.range_cells(o, q[1], n)
                if acc is None:
                    acc = cs
                else:
                    if set(cs) != set(acc):
                        raise Unsupported('memcpy merge')
                    for k in cs:
                        acc[k] = (cs[k][0], fmerge(c, cs[k][1], acc[k][1]))
            cells = acc
        else:
            o = self.robj(S, s[0])
            if self.check(S, o, s, n, True, 'read (memcpy)') is False:
                return d
            if self.readhook is not None:
                self.readhook(S, s, n)
            cells = self.range_cells(o, s[1], n)
        if type(d) is Node:
            for k, (sz, v) in (cells or {}).items():
                self.store(S, tm.map1(lambda q: q if q is UNDEF else (q[0], q[1] + k), d), sz, v)
            return d
        w = self.wobj(S, d[0])
        if self.check(S, w, d, n, True, 'write (memcpy)') is False:
            return d
        if w.kind in ('const', 'in'):
            self.error(S, 'write to read-only memory %s' % self.describe(S, d))
        self.clear(w, d[1], n)
        for k, (sz, v) in cells.items():
            w.cells[d[1] + k] = (sz, v)
        return d

    def range_cells(self, o, off, n):
        """cells of [off, off+n) rebased to 0"""
        out = {}
        x = off
        end = off + n
        cells = o.cells
        while x < end:
            c = cells.get(x)
            if c is not None:
                if x + c[0] > end:
                    b = bytes_of(c[0], c[1])
                    for y in range(x, end):
                        out[y - off] = (1, UNDEF if b is None else tm.wrap(b[y - x], 8))
                    x = end
                    continue
                out[x - off] = c
                x += c[0]
                continue
            k = next((k for k in range(1, 8) if x - k in cells and cells[x - k][0] > k), None) if x == off else None
            if k is not None:
                c = cells[x - k]
                b = bytes_of(c[0], c[1])
                e = min(end, x - k + c[0])
                for y in range(x, e):
                    out[y - off] = (1, UNDEF if b is None else tm.wrap(b[y - x + k], 8))
                x = e
                continue
            if not callable(o.dflt):
                fill = ZERO if o.dflt == 'zero' else UNDEF
                for g in (8, 4, 1):
                    if x % g == 0 and x + g <= end and not any((x + k) in cells for k in range(1, g)):
                        out[x - off] = (g, fill)
                        x += g
                        break
            else:
                raise Unsupported('copy of lazily initialised memory')
        return out

    def st_memset(self, S, d, v, n):
        n = restrict(n, S.pc) if type(n) is Node else n
        d = restrict(d, S.pc) if type(d) is Node else d
        if n == 0:
            return d
        if v != 0 or type(n) is not int or type(d) is not tuple:
            raise Unsupported('memset')
        w = self.wobj(S, d[0])
        if self.check(S, w, d, n, True, 'write (memset)') is False:
            return d
        self.clear(w, d[1], n)
        x = d[1]
        while x < d[1] + n:
            for g in (8, 4, 1):
                if x % g == 0 and x + g <= d[1] + n:
                    w.cells[x] = (g, ZERO)
                    x += g
                    break
        return d

    # --- FILE model: object with cells 0:pos 8:len 16:content object id
    def new_file(self, S, name='file'):
        f = self.new(S, 24, 'zero', 'file', name)
        c = self.new(S, 1 << 40, 'undef', 'filedata', name + ' data')
        o = S.mem[f]
        o.cells[0] = (8, 0); o.cells[8] = (8, 0); o.cells[16] = (8, c)
        return (f, 0)

    def file_pos(self, S, f):
        return S.mem[f[0]].cells[0][1]

    def file_len(self, S, f):
        return S.mem[f[0]].cells[8][1]

    def file_rewind(self, S, f, pos=0):
        self.wobj(S, f[0]).cells[0] = (8, pos)

    def _io_args(self, S, p, size, n, f, what):
        if type(f) is not tuple or f == (0, 0):
            self.error(S, '%s on invalid stream' % what)
        size = restrict(size, S.pc) if type(size) is Node else size
        n = restrict(n, S.pc) if type(n) is Node else n
        p = restrict(p, S.pc) if type(p) is Node else p
        if size is UNDEF or n is UNDEF:
            self.error(S, '%s with uninitialised size' % what)
        if type(p) is Node:
            for c, q in leaves(p):
                if q is UNDEF or q[0] <= 0:
                    self.error(S, '%s through invalid pointer %r' % (what, q), c)
            p = restrict(p, S.pc)
        if type(size) is not int or type(n) is not int or type(p) is not tuple:
            raise Unsupported('symbolic %s arguments %r %r %r' % (what, p, size, n))
        o = self.wobj(S, f[0])
        if o is None or o.kind != 'file':
            raise Unsupported('%s on a non-file' % what)
        pos = restrict(o.cells[0][1], S.pc)
        if type(pos) is not int:
            raise Unsupported('symbolic file position')
        return p, size, n, o, pos

    def st_fwrite(self, S, p, size, n, f):
        p, size, n, fo, pos = self._io_args(S, p, size, n, f, 'fwrite')
        tot = size * n
        if tot == 0:
            return 0
        if tot > 1 << 24 or tot < 0:
            self.error(S, 'fwrite of %d bytes' % tot)
        src = self.robj(S, p[0])
        if self.check(S, src, p, tot, True, 'read (fwrite)') is False:
            return 0
        if self.readhook is not None:
            self.readhook(S, p, tot)
        cells = self.range_cells(src, p[1], tot)
        data = self.wobj(S, fo.cells[16][1])
        self.io_log.append(('w', pos, tot))
        fail = False
        if self.io_fault:
            fail = tm.fresh_bool('io_fail_%d' % len(self.io_atoms))
            self.io_atoms.append((fail, S.pc))
        self.clear(data, pos, tot)
        for k, (sz, v) in cells.items():
            data.cells[pos + k] = (sz, v)
        # after a failed write the position is taken to be the same: nothing that follows may depend on it
        fo.cells[0] = (8, pos + tot)
        fo.cells[8] = (8, pos + tot)
        return ite(fail, n - 1, n)

    def st_fread(self, S, p, size, n, f):
        p, size, n, fo, pos = self._io_args(S, p, size, n, f, 'fread')
        tot = size * n
        if tot == 0:
            return 0
        if tot < 0 or tot > 1 << 24:
            self.error(S, 'fread of %d bytes' % tot)
        flen = restrict(fo.cells[8][1], S.pc)
        if type(flen) is not int:
            raise Unsupported('symbolic file length')
        dst = self.wobj(S, p[0])
        if self.check(S, dst, p, tot, True, 'write (fread)') is False:
            return 0
        if dst.kind in ('const', 'in'):
            self.error(S, 'write to read-only memory %s' % self.describe(S, p))
        m = min(n, max(0, (flen - pos) // size))
        self.io_log.append(('r', pos, tot))
        fail = False
        if self.io_fault:
            fail = tm.fresh_bool('io_fail_%d' % len(self.io_atoms))
            self.io_atoms.append((fail, S.pc))
        data = self.robj(S, fo.cells[16][1])
        if m:
            cells = self.range_cells(data, pos, m * size)
            lim = (n - 1) * size
            if fail is False:
                self.clear(dst, p[1], m * size)
                for k, (sz, v) in cells.items():
                    dst.cells[p[1] + k] = (sz, v)
            else:
                old = self.range_cells(dst, p[1], m * size)
                for k, (sz, v) in cells.items():
                    if k < lim:
                        nv = v
                    else:
                        oc = old.get(k)
                        if oc is None or oc[0] != sz:
                            ov = zero_like(v) if dst.dflt == 'zero' else UNDEF
                        else:
                            ov = zero_like(v) if oc[1] is ZERO else oc[1]
                        nv = fmerge(fail, ov, zero_like(v) if False else v)
                    old_c = dst.cells.get(p[1] + k)
                    if old_c is not None and old_c[0] != sz:
                        self.clear(dst, p[1] + k, sz)
                    dst.cells[p[1] + k] = (sz, nv)
        fo.cells[0] = (8, pos + m * size)
        return ite(fail, n - 1, m)

    def cstr(self, S, p):
        o = self.robj(S, p[0])
        if o is None or p[0] <= 0:
            self.error(S, 'string through invalid pointer %s' % self.describe(S, p))
        out = []
        off = p[1]
        while True:
            v = self.load(S, (p[0], off), 1, 'i8')
            if type(v) is not int:
                raise Unsupported('symbolic string')
            if v == 0:
                return bytes(x & 255 for x in out)
            out.append(v)
            off += 1

    def st_strcmp(self, S, a, b, n=None, fold=False, mem=False):
        """0 exactly when the strings are equal; the sign only for fixed strings"""
        if type(n) is Node:
            r = 1
            for c, v in leaves(n):
                if band(c, S.pc) is not False:
                    r = ite(c, self.st_strcmp(S, a, b, v, fold, mem), r)
            return r
        if n is not None and type(n) is not int:
            raise Unsupported('symbolic length of a comparison')
        eq = True
        k = 0
        while n is None or k < n:
            x = self.load(S, (a[0], a[1] + k), 1, 'i8'); y = self.load(S, (b[0], b[1] + k), 1, 'i8')
            if fold:
                x, y = _tolower8(x), _tolower8(y)
            eq = band(eq, tm.icmp('eq', x, y, 8))
            if eq is False or band(S.pc, eq) is False:
                return (x & 255) - (y & 255) if type(x) is int and type(y) is int else 1
            if not mem and (type(x) is int and x == 0 or type(y) is int and y == 0):
                break
            k += 1
        return tm.map1(lambda v: 0 if v else 1, eq) if type(eq) is Node else 0

    def st_strlen(self, S, p):
        out = None
        rest = True
        parts = []
        k = 0
        while True:
            v = self.load(S, (p[0], p[1] + k), 1, 'i8')
            z = tm.icmp('eq', v, 0, 8)
            parts.append((z, k))
            if z is True:
                break
            k += 1
        out = parts[-1][1]
        for z, k in reversed(parts[:-1]):
            if z is not False:
                out = ite(z, k, out)
        return out

    # ------------------------------------------------------------ calls
    def select(self, S, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if type(c) is Node:
            c = restrict(c, S.pc)
            if type(c) is not Node:
                return self.select(S, c, a, b)
            if UNDEF in tm.leafset(c):
                return tm.map1(lambda x: UNDEF if x is UNDEF else x, c) if type(a) is bool else UNDEF
            return fmerge(c, a, b)
        return UNDEF

    def switch(self, S, v, dflt, cases, w):
        if type(v) is int:
            for c, e in cases:
                if c == v:
                    return e
            return dflt
        if type(v) is Node:
            v = restrict(v, S.pc)
            if type(v) is int:
                return self.switch(S, v, dflt, cases, w)
        if v is UNDEF:
            self.error(S, 'switch on uninitialised value')
        out = []
        rest = True
        for c, e in cases:
            k = band(rest, tm.icmp('eq', v, c, w))
            out.append((k, e))
            rest = band(rest, bnot(k))
        out.append((rest, dflt))
        return ('sw', out)

    def callptr(self, S, p, args):
        if type(p) is Node:
            p = restrict(p, S.pc)
        if type(p) is Node:
            alts = [(band(c, S.pc), q) for c, q in leaves(p)]
            alts = [(c, q) for c, q in alts if c is not False]
            outs = []
            n = len(alts)
            for k, (c, q) in enumerate(alts):
                s2 = S.fork()
                s2.pc = c
                try:
                    r = self.callptr(s2, q, args)
                    outs.append((s2, r))
                except PathAbort:
                    pass
            return self.adopt(S, outs)
        if type(p) is not tuple or p[0] >= 0 or p[0] not in self.fid_rev:
            self.error(S, 'call through invalid function pointer %r' % (p,))
        m, name = self.fid_rev[p[0]]
        return self.call(S, name, args, m)

    def adopt(self, S, outs):
        if not outs:
            S.pc = False
            raise PathAbort('no feasible return')
        s, r = outs[0]
        for s2, r2 in outs[1:]:
            c = self.merge_state(s, s2)
            r = r if tm.same(r, r2) or r is None else fmerge(c, r, r2)
        S.mem = s.mem; S.pc = s.pc; S.tok = s.tok
        return r

    def call(self, S, name, args, M=None):
        st = self.stubs.get(name)
        if st is not None:
            return st(self, S, *args)
        h = STUBS.get(name)
        if h is not None:
            return h(self, S, *args)
        m = self.find_fn(name, M)
        if m is None:
            raise Unsupported('undefined external %s' % name)
        if self.trace_calls is not None:
            self.trace_calls.append((name, args, S.pc))
        return self.run(S, m, name, args)

    def run(self, S, M, name, args):
        f = self.getfn(M, name)
        self.encoded.add(name)
        if len(args) != f.np:
            raise Unsupported('arity mismatch calling %s' % name)
        R = [None] * f.nregs
        R[:len(args)] = args
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion depth')
        try:
            return self.frame(S, f, R)
        finally:
            self.depth -= 1

    def frame(self, S0, f, R):
        blocks = f.blocks; edges = f.edges; rpo = f.rpo; nest = f.nest
        pending = {}
        outs = []
        S = State()
        S.mem = S0.mem; S.pc = S0.pc; S.tok = S0.tok
        b = 0
        path = ()
        steps = 0
        while True:
            # run the current item
            try:
                if b < 0:
                    raise PathAbort
                steps += 1
                if steps > 20000:
                    self.steps += steps; steps = 0
                    if self.steps > self.maxsteps:
                        raise Unsupported('step budget')
                r = blocks[b](self, S, R)
            except PathAbort:
                r = None
            if type(r) is int:
                a, nb_, pf = edges[r]
                if pf is not None:
                    pf(R)
                if not pending:
                    if nest[nb_] or path:
                        path = self.newpath(f, path, r, nb_, False, S)
                        if path is None:
                            b = -1; path = ()
                            continue
                    b = nb_
                    continue
                path = self.newpath(f, path, r, nb_, True, S)
                if path is not None:
                    self.enqueue(f, pending, S, R, nb_, path)
            elif r is None:
                pass
            elif len(r) == 1:
                for ai in f.allocas:
                    p = R[ai]
                    if type(p) is tuple:
                        S.mem.pop(p[0], None)
                outs.append((S, r[0]))
            else:
                if r[0] == 'sw':
                    alts = r[1]
                else:
                    c, e1, e2 = r
                    if type(c) is Node:
                        c = restrict(c, S.pc)
                    if c is True:
                        alts = ((True, e1),)
                    elif c is False:
                        alts = ((True, e2),)
                    elif c is UNDEF or UNDEF in tm.leafset(c):
                        bad = True if c is UNDEF else tm.map1(lambda x: x is UNDEF, c)
                        try:
                            self.error(S, 'branch on uninitialised value in %s' % f.name, bad)
                        except PathAbort:
                            pass
                        if S.pc is False:
                            alts = ()
                        else:
                            c = tm.map1(lambda x: False if x is UNDEF else x, c)
                            alts = ((c, e1), (bnot(c), e2))
                    else:
                        alts = ((c, e1), (bnot(c), e2))
                al2 = []
                for c, e in alts:
                    pc = band(S.pc, c)
                    if pc is not False:
                        al2.append((pc, e))
                n = len(al2)
                for k, (pc, e) in enumerate(al2):
                    a, nb_, pf = edges[e]
                    if k < n - 1:
                        S2 = S.fork(); R2 = list(R)
                    else:
                        S2 = S; R2 = R
                    S2.pc = pc
                    if pf is not None:
                        pf(R2)
                    p2 = self.newpath(f, path, e, nb_, True, S2)
                    if p2 is not None:
                        self.enqueue(f, pending, S2, R2, nb_, p2)
            if not pending:
                break
            k = min(pending)
            S, R, b, path = pending.pop(k)
            self.nstates += 1
        self.steps += steps
        if not outs:
            S0.pc = False
            raise PathAbort('no feasible return from %s' % f.name)
        return self.adopt(S0, outs)

    def newpath(self, f, path, e, b, track, S):
        """loop position vector: ((header, iter), ...)"""
        nst = f.nest[b]
        if not nst:
            return ()
        out = []
        for i, h in enumerate(nst):
            if i < len(path) and path[i][0] == h and len(out) == i:
                it = path[i][1]
                if h == b and e in f.back:
                    it += 1
                    if track and it > self.maxiter:
                        self.unrolls.append((f.name, S.pc))
                        return None
                    out.append((h, it))
                    break_after = True
                    continue
                out.append((h, it))
            else:
                out.append((h, 0))
        # inner loops restart when an outer back edge was taken
        if e in f.back:
            k = nst.index(b)
            out = out[:k + 1]
        return tuple(out)

    def enqueue(self, f, pending, S, R, b, path):
        key = []
        for h, it in path:
            key.append((f.rpo[h], it))
        key.append((f.rpo[b], 0))
        if path and path[-1][0] == b:
            key.pop()
        key = tuple(key)
        old = pending.get(key)
        if old is None:
            pending[key] = (S, R, b, path)
            return
        S1, R1, b1, _ = old
        assert b1 == b
        c = self.merge_state(S1, S)
        for i in f.live[b]:
            x = R1[i]; y = R[i]
            if x is not y:
                if x is None:
                    R1[i] = y
                elif y is not None and not tm.same(x, y):
                    R1[i] = fmerge(c, x, y)

    def merge_state(self, A, B):
        """merge B into A; returns condition selecting A"""
        pc = bor(A.pc, B.pc)
        c = restrict(A.pc, pc)
        if c is True or c is False:
            # overlapping: should not happen for disjoint paths
            if B.pc is False:
                return True
            if A.pc is False:
                A.mem = B.mem; A.pc = B.pc; A.tok = B.tok
                return False
            raise Unsupported('merge of non-disjoint paths')
        ma = A.mem; mb = B.mem
        tok = next(_tok)
        if ma is not mb:
            new = None
            for i, ob in mb.items():
                oa = ma.get(i)
                if oa is ob:
                    continue
                if new is None:
                    new = dict(ma)
                if oa is None:
                    oa = self.gget(i)
                    if oa is None:
                        o = ob.clone(tok)
                        o.alive = band(bnot(c), ob.alive)
                        new[i] = o
                        continue
                new[i] = self.merge_obj(c, oa, ob, tok, A.pc, B.pc)
            for i, oa in list(ma.items()):
                if i not in mb:
                    if new is None:
                        new = dict(ma)
                    ob = self.gget(i)
                    if ob is None:
                        o = oa.clone(tok)
                        o.alive = band(c, oa.alive)
                        new[i] = o
                    else:
                        new[i] = self.merge_obj(c, oa, ob, tok, A.pc, B.pc)
            if new is not None:
                A.mem = new
        A.tok = tok
        A.pc = pc
        return c

    def merge_obj(self, c, a, b, tok, pa=True, pb=True):
        o = Obj()
        o.size = a.size; o.dflt = a.dflt; o.tok = tok; o.name = a.name; o.kind = a.kind
        o.alive = ite(c, a.alive, b.alive)
        ca = a.cells; cb = b.cells
        if ca is not cb and a.kind == 'heap':
            # contents of a block that does not exist on one of the two paths
            if restrict(a.alive, pa) is False: ca = cb
            elif restrict(b.alive, pb) is False: cb = ca
        if ca is cb:
            o.cells = dict(ca)
            return o
        out = dict(ca)
        for k, y in cb.items():
            x = ca.get(k)
            if x is None:
                if b.dflt == 'zero':
                    xv = zero_like(y[1])
                elif callable(a.dflt):
                    raise Unsupported('merge lazily initialised object')
                else:
                    xv = UNDEF
                if y[1] is ZERO:
                    out[k] = (y[0], ZERO if xv is ZERO else UNDEF)
                    if xv is not ZERO and a.kind != 'filedata':      # contents of a file whose writing failed are not used
                        raise Unsupported('merge ZERO/undef in %s+%s' % (a.name, k))
                else:
                    out[k] = (y[0], y[1] if tm.same(xv, y[1]) else fmerge(c, xv, y[1]))
            elif x is not y:
                if x[0] != y[0]:
                    raise Unsupported('merge of mixed-size cells in %s' % a.name)
                xv, yv = x[1], y[1]
                if xv is ZERO and yv is not ZERO:
                    xv = zero_like(yv)
                elif yv is ZERO and xv is not ZERO:
                    yv = zero_like(xv)
                if not tm.same(xv, yv):
                    out[k] = (x[0], fmerge(c, xv, yv))
        for k, x in ca.items():
            if k not in cb:
                if a.dflt == 'zero':
                    yv = zero_like(x[1])
                else:
                    yv = UNDEF
                if x[1] is ZERO and yv is not ZERO and a.kind == 'filedata':
                    out[k] = (x[0], UNDEF)
                    continue
                if x[1] is ZERO and yv is not ZERO:
                    raise Unsupported('merge ZERO/undef in %s+%s' % (a.name, k))
                if not tm.same(x[1], yv):
                    out[k] = (x[0], fmerge(c, x[1], yv))
        o.cells = out
        return o


def _m1(name):
    return lambda E, S, a: tm.fun1(name, a)


def _case(c, lo, hi, d, w):
    if type(c) is int:
        return c + d if lo <= c <= hi else c
    up = band(bnot(tm.icmp('slt', c, lo, w)), bnot(tm.icmp('sgt', c, hi, w)))
    if up is False:
        return c
    y = tm.ibin('add', c, d, w)
    return y if up is True else ite(up, y, c)


def _tolower8(c):
    return _case(c, 65, 90, 32, 8)


def _tolower(E, S, c):
    return _case(c, 65, 90, 32, 32)


def _toupper(E, S, c):
    return _case(c, 97, 122, -32, 32)


def _abs(E, S, a, flag=None):
    return tm.map1(lambda x: abs(x) if type(x) is int else (_ for _ in ()).throw(Unsupported('abs')), a)


def _minmax(pred, w):
    def f(E, S, a, b):
        c = tm.icmp(pred, a, b, w)
        return E.select(S, c, a, b)
    return f


STUBS = {
    'malloc': lambda E, S, n: E.st_malloc(S, n),
    'calloc': lambda E, S, a, b: E.st_malloc(S, tm.ibin('mul', a, b, 64), True, 'calloc'),
    'free': lambda E, S, p: E.st_free(S, p),
    'fwrite': lambda E, S, p, a, b, f: E.st_fwrite(S, p, a, b, f),
    'fread': lambda E, S, p, a, b, f: E.st_fread(S, p, a, b, f),
    'strcmp': lambda E, S, a, b: E.st_strcmp(S, a, b),
    'strncmp': lambda E, S, a, b, n: E.st_strcmp(S, a, b, n),
    'strcasecmp': lambda E, S, a, b: E.st_strcmp(S, a, b, None, True),
    'strncasecmp': lambda E, S, a, b, n: E.st_strcmp(S, a, b, n, True),
    'memcmp': lambda E, S, a, b, n: E.st_strcmp(S, a, b, n, False, True),
    'strlen': lambda E, S, p: E.st_strlen(S, p),
    'tolower': _tolower,
    'toupper': _toupper,
    'llvm.memcpy.p0.p0.i64': lambda E, S, d, s, n, v: E.st_memcpy(S, d, s, n),
    'llvm.memmove.p0.p0.i64': lambda E, S, d, s, n, v: E.st_memcpy(S, d, s, n),
    'memcpy': lambda E, S, d, s, n: E.st_memcpy(S, d, s, n),
    'memmove': lambda E, S, d, s, n: E.st_memcpy(S, d, s, n),
    'llvm.memset.p0.i64': lambda E, S, d, v, n, q: E.st_memset(S, d, v, n),
    'memset': lambda E, S, d, v, n: E.st_memset(S, d, v, n),
    'llvm.abs.i32': _abs,
    'llvm.abs.i64': _abs,
    'pow': lambda E, S, a, b: tm.fun2('pow', a, b),
    'fmod': lambda E, S, a, b: tm.fbin('frem', a, b),
    'atan2': lambda E, S, a, b: tm.fun2('atan2', a, b),
    'abs': _abs,
}
for _n in ('smax', 'sgt'), ('smin', 'slt'), ('umax', 'ugt'), ('umin', 'ult'):
    for _w in (32, 64):
        STUBS['llvm.%s.i%d' % (_n[0], _w)] = _minmax(_n[1], _w)
for _n in tm._MATH:
    STUBS[_n] = _m1(_n)
for _n in ('fabs', 'sqrt', 'floor', 'ceil', 'sin', 'cos', 'exp', 'log', 'log10'):
    STUBS['llvm.%s.f64' % _n] = _m1(_n)
