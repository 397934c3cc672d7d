"""Replay on the real compiled library (gcc build of /repo's current sources)."""
import ctypes as C, math, os, tempfile, atexit, shutil
from . import repo, ta

_lib = None
_dir = None


def lib():
    global _lib, _dir
    if _lib is None:
        so = os.environ.get('VERIF_SO')
        if not so:
            _dir = tempfile.mkdtemp(prefix='irsym_so_')
            atexit.register(shutil.rmtree, _dir, True)
            so = repo.build_so(_dir)
        _lib = C.CDLL(so)
        _lib.TA_Initialize()
    return _lib


CT = {'double': C.c_double, 'int': C.c_int, 'float': C.c_float}


def optargs(f, cfg):
    return [C.c_double(cfg[o.name]) if o.kind == 'real' else C.c_int(cfg[o.name]) for o in f.opts]


def batch(f, cfg, ins, s, e, single=False, cap=None, pad=0):
    """ins: list of lists of float. returns (ret, beg, nb, outs)"""
    L = lib()
    ty = C.c_float if single else C.c_double
    arrs = [(ty * max(1, len(x)))(*x) for x in ins]
    cap = cap or max(1, e - s + 1)
    outs = [(CT[t] * cap)(*([777] * cap)) for _, t in f.outs]
    b = C.c_int(-99); n = C.c_int(-99)
    fn = getattr(L, ('TA_S_' if single else 'TA_') + f.name)
    fn.restype = C.c_int
    r = fn(C.c_int(s), C.c_int(e), *arrs, *optargs(f, cfg), C.byref(b), C.byref(n), *outs)
    k = max(0, min(n.value, cap))
    return r, b.value, n.value, [list(o)[:k] for o in outs]


class Stream:
    def __init__(self, f, cfg, load=None):
        self.f = f
        self.p = C.c_void_p(0)
        if load is not None:
            fn = getattr(lib(), 'TA_%s_StateLoad' % f.name)
            fn.restype = C.c_int
            self.ret = fn(C.byref(self.p), load.p)
            return
        fn = getattr(lib(), 'TA_%s_StateInit' % f.name)
        fn.restype = C.c_int
        self.ret = fn(C.byref(self.p), *optargs(f, cfg))

    def step(self, xs):
        outs = [CT[t](777) for _, t in self.f.outs]
        fn = getattr(lib(), 'TA_%s_State' % self.f.name)
        fn.restype = C.c_int
        r = fn(self.p, *[C.c_double(x) for x in xs], *[C.byref(o) for o in outs])
        return r, [o.value for o in outs]

    def batch(self, ins, s, e):
        L = lib()
        arrs = [(C.c_double * max(1, len(x)))(*x) for x in ins]
        cap = max(1, e - s + 1)
        outs = [(CT[t] * cap)(*([777] * cap)) for _, t in self.f.outs]
        b = C.c_int(-99); n = C.c_int(-99)
        fn = getattr(L, 'TA_%s_BatchState' % self.f.name)
        fn.restype = C.c_int
        r = fn(self.p, C.c_int(s), C.c_int(e), *arrs, C.byref(b), C.byref(n), *outs)
        k = max(0, min(n.value, cap))
        return r, b.value, n.value, [list(o)[:k] for o in outs]

    def save(self, fl):
        fn = getattr(lib(), 'TA_%s_StateSave' % self.f.name)
        fn.restype = C.c_int
        return fn(self.p, fl.p)

    def free(self):
        fn = getattr(lib(), 'TA_%s_StateFree' % self.f.name)
        fn.restype = C.c_int
        return fn(C.byref(self.p))


class File:
    """a C stream on an unlinked temporary file"""

    def __init__(self, data=b'', limit=None):
        self.c = C.CDLL(None)
        self.c.fopen.restype = C.c_void_p
        self.c.ftell.restype = C.c_long
        d = tempfile.mkdtemp(prefix='irsym_f_')
        self.path = d + '/f'
        with open(self.path, 'wb') as g:
            g.write(data)
        self.p = C.c_void_p(self.c.fopen(self.path.encode(), b'r+b'))
        self.c.setvbuf(self.p, None, C.c_int(2), C.c_size_t(0))
        self.fd = os.open(self.path, os.O_RDWR)
        os.unlink(self.path); os.rmdir(d)

    def rewind(self):
        self.c.fseek(self.p, C.c_long(0), C.c_int(0))

    def pos(self):
        return self.c.ftell(self.p)

    def data(self):
        self.c.fflush(self.p)
        return os.pread(self.fd, 1 << 24, 0)

    def truncate(self, n):
        os.ftruncate(self.fd, n)


def close(a, b, tol=1e-6):
    if a != a or b != b:
        return (a != a) == (b != b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def setup(cfgj):
    """apply global settings of a configuration (json form)"""
    from .meta import UNSTF, CRANGE
    L = lib()
    L.TA_Initialize()
    for k, v in (cfgj.get('unst') or {}).items():
        L.TA_SetUnstablePeriod(UNSTF[k], C.c_int(v))
    L.TA_SetCompatibility(C.c_int(cfgj.get('compat') or 0))
    if cfgj.get('candle'):
        a, fac, rg = (list(cfgj["candle"]) + [None])[:3]
        for i in range(11):
            L.TA_SetCandleSettings(C.c_int(i), C.c_int((rg or CRANGE)[i]), C.c_int(a[i % len(a)]), C.c_double(fac[i % len(fac)]))
    return L
