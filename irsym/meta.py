"""Published metadata, read by executing the library's own query functions over
the tables in the IR; run configurations per function."""
import os
from . import ta, terms as tm

ITYPE = ['price', 'real', 'integer', 'pointer']
OTYPE = ['real_range', 'real_list', 'int_range', 'int_list']
PRICE = [('open', 1), ('high', 2), ('low', 4), ('close', 8), ('volume', 16), ('openinterest', 32), ('timestamp', 64)]


def cstr(h, text, name='string'):
    b = text.encode() + b'\0'
    i = h.E.new(h.S, len(b), 'undef', 'in', name)
    for k, c in enumerate(b):
        h.S.mem[i].cells[k] = (1, c - 256 if c > 127 else c)
    return (i, 0)


def rstr(h, p):
    if p == (0, 0) or type(p) is not tuple:
        return None
    return h.E.cstr(h.S, p).decode('latin1')


def rd(h, p, off, size, code):
    return h.E.load(h.S, (p[0], p[1] + off), size, code)


def val(v):
    return v.val if isinstance(v, tm.T) and v.op == 'const' else v


def func_info(h, name):
    """dict for one function by its published name; None when the lookup fails"""
    ph = h.ptrvar('handle', (0, 0))
    r = h.call('TA_GetFuncHandle', cstr(h, name), ph)
    if r != 0:
        return None
    return info_of(h, h.get(ph, 0, 'ptr'))


def info_of(h, hd):
    pi = h.ptrvar('info', (0, 0))
    r = h.call('TA_GetFuncInfo', hd, pi)
    if r != 0:
        return None
    fi = h.get(pi, 0, 'ptr')
    d = {'handle': hd, 'info': fi, 'name': rstr(h, rd(h, fi, 0, 8, 'p')), 'group': rstr(h, rd(h, fi, 8, 8, 'p')), 'hint': rstr(h, rd(h, fi, 16, 8, 'p')),
         'camel': rstr(h, rd(h, fi, 24, 8, 'p')), 'flags': rd(h, fi, 32, 4, 'i32'), 'nin': rd(h, fi, 36, 4, 'i32'),
         'nopt': rd(h, fi, 40, 4, 'i32'), 'nout': rd(h, fi, 44, 4, 'i32'), 'nstruct': rd(h, fi, 48, 4, 'i32')}
    d['ins'] = []; d['opts'] = []; d['outs'] = []
    for k in range(d['nin']):
        if h.call('TA_GetInputParameterInfo', hd, k, pi) != 0:
            return d
        p = h.get(pi, 0, 'ptr')
        d['ins'].append({'type': ITYPE[rd(h, p, 0, 4, 'i32')], 'name': rstr(h, rd(h, p, 8, 8, 'p')), 'flags': rd(h, p, 16, 4, 'i32')})
    for k in range(d['nopt']):
        if h.call('TA_GetOptInputParameterInfo', hd, k, pi) != 0:
            return d
        p = h.get(pi, 0, 'ptr')
        o = {'type': OTYPE[rd(h, p, 0, 4, 'i32')], 'name': rstr(h, rd(h, p, 8, 8, 'p')), 'flags': rd(h, p, 16, 4, 'i32'),
             'display': rstr(h, rd(h, p, 24, 8, 'p')), 'default': val(rd(h, p, 40, 8, 'f64')), 'hint': rstr(h, rd(h, p, 48, 8, 'p'))}
        ds = rd(h, p, 32, 8, 'p')
        if ds != (0, 0):
            if o['type'] == 'real_range':
                o['min'] = val(rd(h, ds, 0, 8, 'f64')); o['max'] = val(rd(h, ds, 8, 8, 'f64')); o['precision'] = rd(h, ds, 16, 4, 'i32')
                o['suggested'] = [val(rd(h, ds, x, 8, 'f64')) for x in (24, 32, 40)]
            elif o['type'] == 'int_range':
                o['min'] = rd(h, ds, 0, 4, 'i32'); o['max'] = rd(h, ds, 4, 4, 'i32')
                o['suggested'] = [rd(h, ds, x, 4, 'i32') for x in (8, 12, 16)]
            elif o['type'] == 'int_list':
                q = rd(h, ds, 0, 8, 'p'); n = rd(h, ds, 8, 4, 'i32')
                o['list'] = [(rd(h, q, 16 * j, 4, 'i32'), rstr(h, rd(h, q, 16 * j + 8, 8, 'p'))) for j in range(n)]
            elif o['type'] == 'real_list':
                q = rd(h, ds, 0, 8, 'p'); n = rd(h, ds, 8, 4, 'i32')
                o['list'] = [(val(rd(h, q, 16 * j, 8, 'f64')), rstr(h, rd(h, q, 16 * j + 8, 8, 'p'))) for j in range(n)]
        d['opts'].append(o)
    for k in range(d['nout']):
        if h.call('TA_GetOutputParameterInfo', hd, k, pi) != 0:
            return d
        p = h.get(pi, 0, 'ptr')
        d['outs'].append({'type': ['real', 'integer'][rd(h, p, 0, 4, 'i32')], 'name': rstr(h, rd(h, p, 8, 8, 'p')), 'flags': rd(h, p, 16, 4, 'i32')})
    return d


class Meta:
    def __init__(self, lk, api):
        tm.reset()
        self.lk = lk
        self.api = api
        self.unst = UNSTF
        self.info = {}
        self._loaded = False

    def load(self):
        if self._loaded:
            return
        self._loaded = True
        h = ta.H(self.lk)
        for n, f in self.api.items():
            d = func_info(h, n)
            self.info[n] = d
            if d:
                for o, x in zip(f.opts, d['opts']):
                    o.default = x['default']


# ------------------------------------------------------------- configurations
def base(f, ints, reals=None, ma=0):
    """cfg with int options taken from `ints` cyclically, clamped to the range"""
    c = {}
    k = 0
    kr = 0
    for o in f.opts:
        if o.kind == 'int':
            c[o.name] = max(o.lo, min(o.hi, ints[k % len(ints)])); k += 1
        elif o.kind == 'ma':
            c[o.name] = ma[0] if isinstance(ma, (list, tuple)) else ma
            if isinstance(ma, (list, tuple)) and len(ma) > 1:
                ma = ma[1:] + ma[:1] if isinstance(ma, list) else ma[1:]
        else:
            c[o.name] = (reals or REALS)[kr % len(reals or REALS)]
            if o.lo is not None:
                c[o.name] = max(o.lo, min(o.hi, c[o.name]))
            kr += 1
    return c


REALS = [0.5, 0.25, 0.125, 0.375, 0.75, 0.0625, 0.1875, 0.625]
# functions whose symbolic execution explodes with large windows: smaller sizes
HEAVY = {'STOCH', 'STOCHF', 'WILLR', 'AROONOSC', 'AROON', 'MINMAX', 'MINMAXINDEX', 'MIDPOINT', 'MIDPRICE', 'MAXINDEX', 'MININDEX', 'STOCHRSI',
         'ULTOSC', 'IMI', 'ADX', 'ADXR', 'DX'}
HT_CYCLE = {'HT_DCPHASE', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE'}
CYCLE = HT_CYCLE | {'HT_DCPERIOD', 'HT_PHASOR', 'MAMA'}
UNSTF = ta.unst_ids()
# unstable-period entries that a function reads (its own or those of its parts)
UNST_OF = {'ADX': ['ADX'], 'ADXR': ['ADX', 'ADXR'], 'ATR': ['ATR'], 'CMO': ['CMO'], 'DX': ['DX'], 'EMA': ['EMA'], 'DEMA': ['EMA'], 'TEMA': ['EMA'],
           'TRIX': ['EMA'], 'MACD': ['EMA'], 'MACDFIX': ['EMA'], 'MACDEXT': ['EMA'], 'APO': ['EMA'], 'PPO': ['EMA'], 'ADOSC': ['EMA'], 'MA': ['EMA'],
           'HT_DCPERIOD': ['HT_DCPERIOD'], 'HT_DCPHASE': ['HT_DCPHASE'], 'HT_PHASOR': ['HT_PHASOR'], 'HT_SINE': ['HT_SINE'],
           'IMI': ['IMI'], 'HT_TRENDLINE': ['HT_TRENDLINE'], 'HT_TRENDMODE': ['HT_TRENDMODE'], 'KAMA': ['KAMA'], 'MAMA': ['MAMA'], 'MFI': ['MFI'],
           'MINUS_DI': ['MINUS_DI'], 'MINUS_DM': ['MINUS_DM'], 'NATR': ['NATR'], 'PLUS_DI': ['PLUS_DI'], 'PLUS_DM': ['PLUS_DM'], 'RSI': ['RSI'],
           'STOCHRSI': ['RSI', 'STOCHRSI'], 'T3': ['T3'], 'WLMA': ['WLMA'], 'BBANDS': ['EMA'], 'STOCH': ['EMA'], 'STOCHF': ['EMA'], 'MAVP': ['EMA']}
COMPAT_OF = {'EMA', 'CMO', 'RSI', 'MACD', 'MACDFIX', 'DEMA', 'TEMA', 'TRIX', 'STOCHRSI', 'APO', 'PPO', 'MA', 'MACDEXT', 'BBANDS', 'ADOSC', 'STOCH', 'STOCHF'}


class Opt(dict):
    """option values; slow: the fixed part of the series moves slowly (a cycle longer than the cycle indicators cap)"""
    slow = False
    sym = False      # the real options are symbolic
    big = False      # windows of more than 256 bars
    far = False      # a long series: all but the last bars are fixed numbers


class Cfg:
    """one run configuration: option values and global settings"""
    __slots__ = ('name', 'opt', 'unst', 'compat', 'candle')

    def __init__(self, name, opt, unst=None, compat=0, candle=None):
        self.name = name; self.opt = Opt(opt); self.opt.slow = bool(unst); self.unst = unst or {}; self.compat = compat; self.candle = candle

    def apply(self, h):
        for k, v in self.unst.items():
            assert h.call('TA_SetUnstablePeriod', UNSTF[k], v) == 0
        if self.compat:
            assert h.call('TA_SetCompatibility', self.compat) == 0
        if self.candle is not None:
            for i in range(11):
                a, fac, rg = (tuple(self.candle) + (CRANGE,))[:3]
                assert h.call('TA_SetCandleSettings', i, rg[i], a[i % len(a)], tm.fc(fac[i % len(fac)])) == 0

    def json(self):
        return {'opt': self.opt, 'unst': self.unst, 'compat': self.compat, 'candle': self.candle, 'name': self.name}

    def __repr__(self):
        return '%s %s%s%s%s' % (self.name, self.opt, ' unst=%s' % self.unst if self.unst else '', ' METASTOCK' if self.compat else '',
                                ' candle=%s' % (self.candle,) if self.candle else '')


CRANGE = [0, 0, 0, 1, 0, 0, 2, 1, 1, 1, 1]
CRANGE2 = [0, 1, 1, 2, 1, 0, 0, 2, 0, 2, 1]
CFACT = [1.0, 3.0, 1.0, 0.1, 1.0, 2.0, 1.0, 0.1, 0.2, 0.6, 0.05]


DEFAULTS = {}
BIGP = [259, 262, 257]


def defaults(f):
    """published option defaults in the order of the options; None if they cannot be read"""
    if not DEFAULTS:
        import xml.etree.ElementTree as ET
        try:
            for e in ET.parse(os.path.dirname(ta.ROOT) + '/ta_func_api.xml').getroot().iter('FinancialFunctionGroup'):
                DEFAULTS[e.findtext('Abbreviation')] = [float(x.findtext('DefaultValue')) for g in e.iter('Function') if g.findtext('Type') == 'Regular'
                                                        for x in g.iter('OptionalInputArgument')]
        except (OSError, ET.ParseError, ValueError, TypeError):
            DEFAULTS[None] = None
    d = DEFAULTS.get(f.name)
    return d if d is not None and len(d) == len(f.opts) else None


def far_configs(f):
    """the default options (larger windows), default settings: long series whose last bars only are symbolic"""
    d = defaults(f)
    if f.name == 'MAVP' or d is None:
        return []
    x = Cfg('def', {o.name: float(v) if o.kind == 'real' else int(v) for o, v in zip(f.opts, d)})
    x.opt.far = True
    out = [x]
    ints = [o for o in f.opts if o.kind == 'int']
    if ints and all(o.hi >= 1000 for o in ints):      # windows beyond 256 bars
        y = Cfg('big', x.opt)
        y.opt.far = y.opt.big = True
        for k, o in enumerate(ints):
            y.opt[o.name] = BIGP[k % len(BIGP)]
        out.append(y)
    return out


def sym_configs(f):
    """real options symbolic over their published range"""
    n = f.name
    if not any(o.kind == 'real' for o in f.opts) or n == 'MAMA':
        return []
    x = configs(f)[0]
    x = Cfg('sym', base(f, [2] if n == 'T3' else [3]), candle=x.candle)
    x.opt.sym = True
    return [x]


def configs(f, deep=False, candle_small=True):
    """small but distinguishing configurations of one function"""
    n = f.name
    out = []
    if n.startswith('CDL'):
        # distinct averaging periods per setting: 2,3,1,... keeps windows small
        c = base(f, [3])
        out.append(Cfg('cdl-small', c, candle=([2, 3, 1, 2, 1, 0, 3, 1, 2, 3, 1], CFACT)))
        out.append(Cfg('cdl-alt', c, candle=([1, 2, 2, 2, 2, 1, 1, 2, 1, 2, 2], CFACT, CRANGE2)))
        out.append(Cfg('cdl-none', c, candle=([0] * 11, CFACT)))
        if deep:
            out.append(Cfg('cdl-default', base(f, [3], [0.3])))
            out.append(Cfg('cdl-zero', c, candle=([0, 1, 2, 0, 2, 3, 0, 2, 0, 1, 2], CFACT)))
        return out
    ints = [o for o in f.opts if o.kind == 'int']
    if n == 'MAVP':
        out.append(Cfg('p2-3', base(f, [2, 3])))
        return out
    if n in HEAVY:
        if n == 'ULTOSC':
            out.append(Cfg('p1,2,3', base(f, [1, 2, 3])))
            out.append(Cfg('p3,1,2', base(f, [3, 1, 2])))
        elif n in ('STOCH', 'STOCHF'):
            out.append(Cfg('p2,2,3', base(f, [2, 2, 3])))
            out.append(Cfg('p3,1,1', base(f, [3, 1, 1])))
            out.append(Cfg('p1,3,2', base(f, [1, 3, 2], ma=(1, 2))))
        elif n == 'STOCHRSI':
            out.append(Cfg('p2,2,2', base(f, [2, 2, 2])))
            out.append(Cfg('p3,1,2', base(f, [3, 1, 2])))
        elif n in ('ADX', 'ADXR', 'DX'):
            out.append(Cfg('p2', base(f, [2])))
        else:
            out.append(Cfg('p2', base(f, [2])))
            out.append(Cfg('p3', base(f, [3])))
    elif n in ('MACD', 'MACDEXT'):
        out.append(Cfg('p2,4,3', base(f, [2, 4, 3], ma=1)))
        out.append(Cfg('p4,2,2', base(f, [4, 2, 2], ma=1)))
        if n == 'MACDEXT':
            out.append(Cfg('p3,2,2-sma,wma,trima', base(f, [3, 2, 2], ma=(0, 2, 5))))
            out.append(Cfg('p2,3,1-tema,dema,sma', base(f, [2, 3, 1], ma=(4, 3, 0))))
            out.append(Cfg('p2,4,2-wma,sma,ema', base(f, [2, 4, 2], ma=(2, 0, 1))))
            if deep:
                out.append(Cfg('p2,3,2-mama,sma,sma', base(f, [2, 3, 2], ma=(7, 0, 0))))
    elif n in ('APO', 'PPO', 'ADOSC'):
        out.append(Cfg('p2,4', base(f, [2, 4], ma=1)))
        out.append(Cfg('p5,2', base(f, [5, 2])))
        if n != 'ADOSC':
            out.append(Cfg('p3,3-wma', base(f, [3, 3], ma=2)))
            out.append(Cfg('p2,3-trima', base(f, [2, 3], ma=5)))
    elif n == 'MA':
        for m in range(10):
            if m == 7:
                continue
            out.append(Cfg('p3-' + ta.MATYPES[m], base(f, [3], ma=m)))
        out.append(Cfg('p1-KAMA', base(f, [1], ma=6)))
        out.append(Cfg('p3-MAMA', base(f, [3], ma=7)))
    elif n == 'BBANDS':
        out.append(Cfg('p3', base(f, [3], [2.0, 1.5])))
        out.append(Cfg('p2-EMA', base(f, [2], [1.0, 1.0], ma=1)))
        out.append(Cfg('p3-WMA', base(f, [3], [1.0, 2.0], ma=2)))
        out.append(Cfg('p3-nb22', base(f, [3], [2.0, 2.0])))
        out.append(Cfg('p4-nb31', base(f, [4], [3.0, 1.0])))
        out.append(Cfg('p35-MAMA', base(f, [35], [2.0, 1.5], ma=7)))
    elif n in ('SAR', 'SAREXT'):
        if n == 'SAR':
            out.append(Cfg('a.25,m.5', base(f, [], [0.25, 0.5])))
            out.append(Cfg('a.75>m.5', base(f, [], [0.75, 0.5])))
        else:
            out.append(Cfg('start0', base(f, [], [0.0, 0.125, 0.25, 0.25, 0.5, 0.125, 0.125, 0.375])))
            out.append(Cfg('startLong', base(f, [], [1.5, 0.0, 0.25, 0.125, 0.5, 0.5, 0.125, 0.25])))
            out.append(Cfg('startShort', base(f, [], [-1.5, 0.25, 0.75, 0.125, 0.5, 0.25, 0.5, 0.375])))
    elif n in ('STDDEV', 'VAR'):
        out.append(Cfg('p4', base(f, [4], [2.0])))
        out.append(Cfg('min', base(f, [1], [1.5])))
    elif ints:
        out.append(Cfg('p4', base(f, [4])))
        lo = base(f, [1])
        out.append(Cfg('min', lo))
        if lo[ints[0].name] != 2 and deep:
            out.append(Cfg('p2', base(f, [2])))
        if n in ('CCI', 'MFI'):     # beyond the fixed-size buffer
            out.append(Cfg('p31', base(f, [31])) if n == 'CCI' else Cfg('p51', base(f, [51])))
        if n in ('SMA', 'WMA', 'TRIMA', 'SUM', 'LINEARREG', 'TSF', 'MFI', 'CCI', 'AVGDEV', 'VAR', 'CORREL', 'BETA'):
            out.append(Cfg('p5', base(f, [5])))
        else:
            out.append(Cfg('p3', base(f, [3])))
    elif f.opts:
        out.append(Cfg('reals', base(f, [])))
    else:
        out.append(Cfg('plain', {}))
    if n == 'T3':
        out.append(Cfg('p2-v1', base(f, [2], [1.0])))
    first = out[0]
    if n in UNST_OF:
        u = {}
        for k, x in enumerate(UNST_OF[n]):
            u[x] = 1 + k
        c = dict(first.opt)
        if n not in CYCLE:
            c = base(f, [2, 3, 2] if n in ('MACD', 'MACDEXT', 'APO', 'PPO', 'ADOSC') else [2], ma=1)
            for o in f.opts:
                if o.kind == 'real':
                    c[o.name] = first.opt[o.name]
        out.append(Cfg('unst', c, unst=u))
    if n in COMPAT_OF and n not in ('MA',):
        c = base(f, [2, 3, 2] if len(ints) > 1 else [3], ma=1)
        for o in f.opts:
            if o.kind == 'real':
                c[o.name] = first.opt[o.name]
        out.append(Cfg('metastock', c, compat=1))
        if n in ('CMO', 'RSI', 'EMA', 'MACD', 'MACDFIX'):
            out.append(Cfg('metastock+unst', dict(c), compat=1, unst={UNST_OF[n][0]: 1}))
    return out
