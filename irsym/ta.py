"""TA-Lib specific layer: public API metadata (from the public header and the
published metadata tables in the IR) and harness helpers."""
import re
from . import terms as tm
from .engine import Engine, State, PathAbort, Unsupported, Obj
from .terms import UNDEF, Node, T
from .repo import ROOT

INT_MIN = -2147483648
REAL_DEFAULT = -4e37
SUCCESS, LIB_NOT_INIT, BAD_PARAM, ALLOC_ERR = 0, 1, 2, 3
START_ERR, END_ERR, INVALID_LIST, BAD_OBJ, NOT_SUP = 12, 13, 14, 15, 16
NEED_MORE = 17
IO_FAILED = 18
INTERNAL = 5000
BAD_SUCCESS = 0

MATYPES = ['SMA', 'EMA', 'WMA', 'DEMA', 'TEMA', 'TRIMA', 'KAMA', 'MAMA', 'T3', 'WLMA']


def unst_ids():
    """published unstable-period identifiers -> enumeration value (public header)"""
    txt = open(ROOT + '/include/ta_defs.h', errors='replace').read()
    out = {}
    k = 0
    for m in re.finditer(r'ENUM_DEFINE\(\s*TA_FUNC_UNST_(\w+)\s*,\s*\w+\s*\)\s*(?:=\s*(-?\d+))?', txt):
        if m.group(2) is not None:
            k = int(m.group(2))
        out[m.group(1)] = k
        k += 1
    return out


class Opt:
    __slots__ = ('name', 'kind', 'lo', 'hi', 'default')

    def __repr__(self):
        return '%s:%s[%s..%s]=%s' % (self.name, self.kind, self.lo, self.hi, self.default)


class FuncMeta:
    __slots__ = ('name', 'ins', 'opts', 'outs', 'has_state', 'bmap')

    def __repr__(self):
        return 'TA_%s(%s | %s | %s)' % (self.name, self.ins, self.opts, self.outs)


def _num(s):
    s = s.strip()
    if s in ('TA_INTEGER_MIN',): return -2147483647
    if s in ('TA_INTEGER_MAX',): return 2147483647
    if s == 'TA_REAL_MIN': return -3e37
    if s == 'TA_REAL_MAX': return 3e37
    try:
        return int(s)
    except ValueError:
        return float(s)


def protos(text):
    """name -> parameter text, for every TA_LIB_API prototype of the header"""
    out = {}
    for m in re.finditer(r'TA_LIB_API\s+(?:const\s+)?[\w ]+?\s*\**\s*\b(TA_\w+)\s*\(([^;]*)\)\s*;', text):
        out[m.group(1)] = m.group(2)
    return out


def parse_api(header=None):
    header = header or ROOT + '/include/ta_func.h'
    text = open(header, errors='replace').read()
    P = protos(text)
    fs = {}
    for name, par in P.items():
        m = re.match(r'TA_(\w+)_Lookback$', name)
        if not m or ('TA_' + m.group(1)) not in P:
            continue
        f = FuncMeta()
        f.name = m.group(1)
        f.ins = []; f.opts = []; f.outs = []; f.bmap = None
        body = P['TA_' + f.name]
        # attach range comments to the preceding parameter
        parts = re.findall(r'([^,/]+?)(?:,|$|(?=/\*))\s*(?:/\*(.*?)\*/)?', body.replace('\n', ' '))
        toks = []
        for decl, com in re.findall(r'((?:const\s+)?\w+\s+\**\s*\w+\s*(?:\[\])?)\s*,?\s*(?:/\*(.*?)\*/)?', body):
            toks.append((decl.strip(), com.strip()))
        for decl, com in toks:
            mm = re.match(r'(const\s+)?(\w+)\s+(\**)\s*(\w+)\s*(\[\])?$', decl)
            con, ty, st, nm, arr = mm.groups()
            if nm in ('startIdx', 'endIdx', 'outBegIdx', 'outNBElement'):
                continue
            if arr and con:
                f.ins.append((nm, ty))
            elif arr:
                f.outs.append((nm, ty))
            else:
                o = Opt()
                o.name = nm
                o.kind = {'int': 'int', 'double': 'real', 'TA_MAType': 'ma'}[ty]
                r = re.match(r'From (\S+)\s+to (\S+)', com)
                o.lo, o.hi = (_num(r.group(1)), _num(r.group(2))) if r else (0, 9) if o.kind == 'ma' else (None, None)
                o.default = None
                f.opts.append(o)
        f.has_state = ('TA_%s_State' % f.name) in P
        fs[f.name] = f
    return fs


class H:
    """one symbolic run context"""

    def __init__(self, lk, init=True):
        self.E = Engine(lk)
        self.S = State()
        self.vars = {}
        if init:
            r = self.call('TA_Initialize')
            assert r == 0, r

    def fork(self):
        """independent continuation sharing the engine"""
        h = object.__new__(H)
        h.E = self.E
        h.S = self.S.fork()
        h.vars = self.vars
        return h

    def arr(self, name, n, sort='f64', vals=None, kind='in'):
        sz = 8 if sort == 'f64' else 4
        i = self.E.new(self.S, n * sz, 'undef', kind, name)
        o = self.S.mem[i]
        for k in range(n):
            if vals is not None:
                v = vals[k]
            else:
                v = tm.var('%s_%d' % (name, k), sort)
            o.cells[k * sz] = (sz, v)
        return (i, 0)

    def buf(self, n, ty='double', name='out'):
        sz = {'double': 8, 'int': 4, 'ptr': 8, 'float': 4}[ty]
        return (self.E.new(self.S, n * sz, 'undef', 'out', name), 0)

    def ptrvar(self, name='handle', v=None):
        p = self.buf(1, 'ptr', name)
        if v is not None:
            self.S.mem[p[0]].cells[0] = (8, v)
        return p

    def get(self, p, k=0, ty='double'):
        """raw read of a cell (no checks); UNDEF if never written"""
        sz = {'double': 8, 'int': 4, 'ptr': 8, 'float': 4, 'long': 8}[ty]
        o = self.E.robj(self.S, p[0])
        c = o.cells.get(p[1] + k * sz)
        if c is None:
            return UNDEF if o.dflt == 'undef' else 0
        return c[1]

    def put(self, p, k, v, ty='double'):
        sz = {'double': 8, 'int': 4, 'ptr': 8, 'float': 4, 'long': 8}[ty]
        self.E.wobj(self.S, p[0]).cells[p[1] + k * sz] = (sz, v)

    def call(self, fn, *args):
        return self.E.call(self.S, fn, tuple(args))

    def optval(self, o, v):
        if o.kind == 'real':
            return v if isinstance(v, (T, Node)) else tm.fc(float(v))
        return v

    def opts(self, f, cfg):
        if getattr(cfg, 'sym', False):      # every value of the real options
            return [tm.optvar(o.name, o.lo, o.hi) if o.kind == 'real' else self.optval(o, cfg[o.name]) for o in f.opts]
        return [self.optval(o, cfg[o.name]) for o in f.opts]

    def lookback(self, f, cfg):
        return self.call('TA_%s_Lookback' % f.name, *self.opts(f, cfg))

    def batch(self, f, cfg, ins, s, e, nout, prefix='TA_', outs=None):
        """returns (ret, begidx, nb, [out pointers])"""
        ob = self.buf(1, 'int', 'outBegIdx'); on = self.buf(1, 'int', 'outNBElement')
        if outs is None:
            outs = [self.buf(nout, ty, nm) for nm, ty in f.outs]
        r = self.call(prefix + f.name, s, e, *ins, *self.opts(f, cfg), ob, on, *outs)
        return r, self.get(ob, 0, 'int'), self.get(on, 0, 'int'), outs

    def init_state(self, f, cfg):
        h = self.ptrvar('state handle', (0, 0))
        r = self.call('TA_%s_StateInit' % f.name, h, *self.opts(f, cfg))
        return r, h

    def state(self, h):
        return self.get(h, 0, 'ptr')

    def step(self, f, st, xs):
        outs = [self.buf(1, ty, nm) for nm, ty in f.outs]
        r = self.call('TA_%s_State' % f.name, st, *xs, *outs)
        vals = [self.get(o, 0, ty) for o, (nm, ty) in zip(outs, f.outs)]
        for o in outs:
            self.S.mem.pop(o[0], None)
        return r, vals

    def live_heap(self):
        """[(object name, condition alive)] still allocated"""
        out = []
        for i, o in self.S.mem.items():
            if o.kind == 'heap':
                a = tm.band(o.alive, self.S.pc)
                if a is not False:
                    out.append((o.name, a))
        return out
