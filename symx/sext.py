"""Stand-ins for the external libraries imported by the code under test (symbolic mode)."""
import builtins
import math
import os
import re
import string
import struct
import time
import types

import numpy as np
import z3

from . import core, snp, vfs
from .core import R, Sym, SymFloat, SymInt, SymStr, eng, kind, mkf, s_isnan
from .snp import NP, SymArray, asarr, box, from_real, is_sym, mk, mka, native, plain, to_conc


def _scal(x):
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return snp.el(x)
    return x


class Generic(types.ModuleType):
    """module proxy: listed attributes are modelled, functions otherwise run concretely (pinning)"""

    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__path__ = []
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(self.__dict__['_real'], name)
        if isinstance(v, types.ModuleType) or isinstance(v, type) and issubclass(v, BaseException):
            return v
        if callable(v):
            return snp.fallback(v, self.__name__ + '.' + name)
        return v


# ------------------------------------------------------------------------------------------------ math

def _m_sqrt(x):
    return core.s_sqrt(native(_scal(x)), pymath=True)


def _m1(f, name):
    real = getattr(math, name)

    def g(x):
        x = native(_scal(x))
        return f(x) if isinstance(x, Sym) else real(x)
    g.__name__ = name
    return g


MATH = Generic(
    'math', math,
    sqrt=_m_sqrt,
    sin=_m1(core.s_sin, 'sin'), cos=_m1(core.s_cos, 'cos'), tan=_m1(core.s_tan, 'tan'),
    exp=_m1(core.s_exp, 'exp'), radians=_m1(core.s_radians, 'radians'),
    floor=_m1(lambda x: core.to_int(core.s_floor(x)), 'floor'),
    ceil=_m1(lambda x: core.to_int(core.s_ceil(x)), 'ceil'),
    trunc=_m1(core.to_int, 'trunc'),
    fabs=_m1(lambda x: core.cast_f(core.s_abs(x)), 'fabs'),
    isnan=_m1(s_isnan, 'isnan'), isfinite=_m1(core.s_isfinite, 'isfinite'), isinf=_m1(core.s_isinf, 'isinf'),
    log=_m1(lambda x: core.s_log(x, True), 'log'),
    pow=lambda a, b: core.cast_f(core.s_pow(native(_scal(a)), native(_scal(b)))),
    hypot=lambda a, b: core.s_sqrt(core.s_add(core.s_mul(a, a), core.s_mul(b, b))),
    fsum=lambda xs: snp.l_sum([core.cast_f(native(x)) for x in xs]),
)


# ------------------------------------------------------------------------------------------------ scipy.interpolate

class interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan,
                 assume_sorted=False):
        if kind != 'linear':
            raise core.Unsupported('interp1d kind ' + str(kind))
        x, y = snp.array(x), snp.array(y)
        if not isinstance(x, SymArray) or not isinstance(y, SymArray):
            raise core.Unsupported('interp1d on objects')
        if x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if y.ndim == 0:
            raise ValueError('the y array must have at least one dimension.')
        ax = axis % y.ndim
        if x.shape[0] != y.shape[ax]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        y = NP.moveaxis(y, ax, 0)
        if not assume_sorted:
            p = np.array(snp.l_argsort(list(plain(x))), dtype=int)
            x, y = x[p], y[p]
        self.x, self.y, self.ax = x, snp.promote(y, 'f'), ax
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if bounds_error is None:
            bounds_error = not self.extrap and (isinstance(fill_value, float) and fill_value != fill_value)
        self.be = bounds_error
        self.fill = fill_value

    def __call__(self, xn):
        q = asarr(xn)
        xs = list(plain(self.x))
        flat = list(plain(q).reshape(-1))
        if not xs:
            raise ValueError('array of sample points is empty')
        res = []
        for t in flat:
            below = core.s_lt(t, xs[0])
            above = core.s_gt(t, xs[-1])
            if self.be:
                if bool(below):
                    raise ValueError('A value in x_new is below the interpolation range.')
                if bool(above):
                    raise ValueError('A value in x_new is above the interpolation range.')
        yv = plain(self.y)
        rest = yv.shape[1:]
        cols = yv.reshape(len(xs), -1)
        outa = np.empty((len(flat), cols.shape[1]), dtype=object)
        for i, t in enumerate(flat):
            for c in range(cols.shape[1]):
                fs = mk(list(cols[:, c]), 'f', (len(xs),))
                if self.extrap:
                    outa[i, c] = self._extrap(t, xs, list(cols[:, c]))
                else:
                    fl, fr = self.fill if isinstance(self.fill, tuple) else (self.fill, self.fill)
                    outa[i, c] = native(_scal(NP.interp(mk([t], 'f', (1,)), self.x, fs, left=fl, right=fr)))
        r = outa.reshape(q.shape + rest)
        if rest and self.ax != 0:
            r = np.moveaxis(r, list(range(q.ndim)), list(range(self.ax, self.ax + q.ndim)))
        return mka(r, 'f')

    def _extrap(self, t, xs, fs):
        n = len(xs)
        if bool(s_isnan(t)):
            return math.nan
        j = 1
        while j < n - 1 and bool(core.s_gt(t, xs[j])):
            j += 1
        sl = core.s_div(core.s_sub(fs[j], fs[j - 1]), core.s_sub(xs[j], xs[j - 1]))
        return core.s_add(core.s_mul(sl, core.s_sub(t, xs[j - 1])), fs[j - 1])


def _bracket(g, t):
    """index k with g[k] <= t <= g[k+1] for ascending concrete or symbolic g (t clamped)"""
    k = 0
    while k < len(g) - 2 and bool(core.s_ge(t, g[k + 1])):
        k += 1
    return k


class RectBivariateSpline:
    """kx = ky = 1, s = 0: bilinear interpolation with coordinates clamped to the grid"""

    def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0):
        if kx != 1 or ky != 1 or s != 0:
            raise core.Unsupported('RectBivariateSpline degree')
        x, y, z = asarr(x).reshape(-1), asarr(y).reshape(-1), asarr(z)
        for g, nm in ((x, 'x'), (y, 'y')):
            for i in range(g.size - 1):
                if not bool(core.s_gt(plain(g)[i + 1], plain(g)[i])):
                    raise ValueError(nm + ' must be strictly increasing')
        if z.shape != (x.size, y.size):
            raise ValueError('x dimension of z must have same number of elements as x')
        if x.size < 2 or y.size < 2:
            raise ValueError('too few points')
        self.x, self.y, self.z = list(plain(x)), list(plain(y)), plain(snp.promote(z, 'f'))

    def _at(self, a, b):
        if bool(s_isnan(a)) or bool(s_isnan(b)):
            return math.nan
        a = core.s_ite(core.s_lt(a, self.x[0]), self.x[0], core.s_ite(core.s_gt(a, self.x[-1]), self.x[-1], a))
        b = core.s_ite(core.s_lt(b, self.y[0]), self.y[0], core.s_ite(core.s_gt(b, self.y[-1]), self.y[-1], b))
        i, j = _bracket(self.x, a), _bracket(self.y, b)
        u = core.s_div(core.s_sub(a, self.x[i]), core.s_sub(self.x[i + 1], self.x[i]))
        v = core.s_div(core.s_sub(b, self.y[j]), core.s_sub(self.y[j + 1], self.y[j]))
        z = self.z

        def lerp(p, q, t):
            return core.s_add(p, core.s_mul(t, core.s_sub(q, p)))
        return lerp(lerp(z[i, j], z[i + 1, j], u), lerp(z[i, j + 1], z[i + 1, j + 1], u), v)

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        X, Y = asarr(x), asarr(y)
        if grid:
            xs, ys = plain(X).reshape(-1), plain(Y).reshape(-1)
            o = np.empty((xs.size, ys.size), dtype=object)
            for i, a in enumerate(xs):
                for j, b in enumerate(ys):
                    o[i, j] = self._at(a, b)
            return mka(o, 'f')
        a, b = np.broadcast_arrays(plain(X), plain(Y))
        o = np.empty(a.shape, dtype=object)
        for k in np.ndindex(*a.shape):
            o[k] = self._at(a[k], b[k])
        return mka(o, 'f')

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, grid=False)


def interp2d(*a, **k):
    raise NotImplementedError('`interp2d` has been removed in SciPy 1.14.0.')


def mk_scipy():
    import scipy
    import scipy.interpolate
    import scipy.io
    import scipy.linalg
    import scipy.optimize
    interp = Generic('scipy.interpolate', scipy.interpolate, interp1d=interp1d,
                     RectBivariateSpline=RectBivariateSpline, interp2d=interp2d)
    interp.__dict__['interpolate'] = interp
    linalg = Generic('scipy.linalg', scipy.linalg, inv=snp.lin_inv, det=snp.lin_det, solve=snp.lin_solve,
                     norm=snp.lin_norm, lstsq=snp.lin_lstsq, pinv=snp.lin_pinv,
                     LinAlgError=np.linalg.LinAlgError)
    opt = Generic('scipy.optimize', scipy.optimize)
    sp = Generic('scipy', scipy, interpolate=interp, linalg=linalg, optimize=opt)
    return sp, interp, linalg, opt


# ------------------------------------------------------------------------------------------------ gsw

_GSW_NARGS = {'C_from_SP': 3, 'SP_from_C': 3, 'SA_from_SP': 4, 'CT_from_pt': 2, 't_from_CT': 3, 'pt_from_CT': 2,
              'CT_from_t': 3, 'pt0_from_t': 3, 'pt_from_t': 4, 'SP_from_SA': 4, 'rho': 3, 'sigma0': 2, 't90_from_t68': 1}


def _gsw(name):
    import gsw
    real = getattr(gsw, name)

    def one(*args):
        if not any(isinstance(a, Sym) for a in args):
            return native(np.asarray(real(*[float(a) for a in args]))[()])
        vs, ns = zip(*[R(a) for a in args])
        n = core._nor(*ns)
        if n is True:
            return math.nan
        e = eng()
        vs = [z3.simplify(v, som=True) for v in vs]
        cs = [core.poly.canon(v) if core.nonlinear(v) else None for v in vs]
        vs = [v if c is None else z3.simplify(c, som=True) for v, c in zip(vs, cs)]
        qs = [core.z3num(v) for v in vs]
        if n is False and None not in qs:
            return native(np.asarray(real(*[float(q) for q in qs]))[()])
        if name == 'SP_from_C':
            for _, a, r in e.ufs.get('gsw.C_from_SP', []):
                if r.get_id() == vs[0].get_id() and a[1].get_id() == vs[1].get_id() and a[2].get_id() == vs[2].get_id():
                    return mkf(a[0], n)
        if name == 'C_from_SP':
            for _, a, r in e.ufs.get('gsw.SP_from_C', []):
                if r.get_id() == vs[0].get_id() and a[1].get_id() == vs[1].get_id() and a[2].get_id() == vs[2].get_id():
                    return mkf(a[0], n)
        return mkf(e.uf('gsw.' + name, list(vs)), n)

    def call(*args, **kw):
        arrs = [snp.asl(a) for a in args]
        if kw:
            raise core.Unsupported('gsw keywords')
        bs = np.broadcast_arrays(*arrs)
        o = np.empty(bs[0].shape, dtype=object)
        for k in np.ndindex(*o.shape):
            o[k] = one(*[b[k] for b in bs])
        if o.ndim == 0:
            return box(o[()])
        return mka(o, 'f')
    call.__name__ = name
    return call


def mk_gsw():
    import gsw
    fs = {n: _gsw(n) for n in _GSW_NARGS if hasattr(gsw, n)}
    conv = Generic('gsw.conversions', gsw.conversions, **{k: v for k, v in fs.items()})
    return Generic('gsw', gsw, conversions=conv, **fs), conv


# ------------------------------------------------------------------------------------------------ builtins / os / io

class str_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (str, SymStr))


def sym_digits(x):
    e = eng()
    tab = getattr(e, 'digitmap', {})
    if isinstance(x, SymInt):
        d = tab.get(x.v.get_id())
        if d is not None:
            return SymStr(d)
    if isinstance(x, SymFloat) and x.n is False:
        v = z3.simplify(x.v)
        for w in (x.v, v):
            if z3.is_to_real(w):
                d = tab.get(w.arg(0).get_id())
                if d is not None and len(d) <= 15:
                    return SymStr(list(d) + ['.', '0'])
    return None


# text made from symbolic values: digits where they are known, otherwise a token that is given a value
# only where the text is used (file name, struct format), so that messages cost nothing
_TOK = re.compile('\x02(\\d+)\x03')
_toks = []


class Tok(str):
    """text holding tokens: joined as it is, given its values by any other use"""

    def __add__(self, other):
        return Tok(str.__add__(self, other)) if isinstance(other, str) else NotImplemented

    def __radd__(self, other):
        return Tok(str.__add__(other, self)) if isinstance(other, str) else NotImplemented

    def __format__(self, spec):
        return str.__str__(self) if not spec else format(resolve(self), spec)

    def __str__(self):
        return resolve(self)


def _resolving(name):
    f = getattr(str, name)

    def g(self, *a, **k):
        return f(resolve(self), *a, **k)
    return g


for _n in dir(str):
    if callable(getattr(str, _n)) and _n not in ('__new__', '__init__', '__add__', '__radd__', '__format__', '__str__', '__class__', '__getattribute__', '__doc__',
                                                 '__init_subclass__', '__subclasshook__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__setattr__',
                                                 '__delattr__', '__dir__', '__sizeof__', '__getstate__', 'maketrans', '__mod__', '__rmod__'):
        setattr(Tok, _n, _resolving(_n))


def token(x, spec='', conv=-1):
    if isinstance(x, SymArray) and x.ndim == 0:
        x = native(snp.el(x))
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Sym):
        d = sym_digits(x) if spec in ('', 'd', 'i', 's') or spec == '.0f' else None
        if d is not None:
            return SymStr(d.chars[:d.chars.index('.')]) if spec == '.0f' and '.' in d.chars else d
        if len(_toks) > 100000:
            _toks.clear()
        _toks.append((x, spec))
        return Tok(f'\x02{len(_toks) - 1}\x03')
    if conv == ord('r'):
        x = repr(x)
    elif conv in (ord('s'), ord('a')):
        x = Str(x)
    return x if isinstance(x, SymStr) else format(x, spec)


def resolve(s):
    """give the tokens in a text their values"""
    if not isinstance(s, str):
        return s
    if isinstance(s, Tok):
        s = str.encode(s, 'utf-8', 'surrogatepass').decode('utf-8', 'surrogatepass')
    if '\x02' not in s:
        return s

    def val(m):
        x, spec = _toks[int(m.group(1))]
        if isinstance(x, SymInt):
            return format(int(x), spec)
        if isinstance(x, core.SymBool):
            return format(bool(x), spec)
        return format(eng().pin(x, 'text'), spec)
    return _TOK.sub(val, s)


def text(*parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            p = token(p[0], resolve(p[2]), p[1])
        out = out + p
    return out


def text_format(fmt, *args, **kw):
    def symb(x):
        return isinstance(x, (Sym, SymStr)) or isinstance(x, SymArray) and x.ndim == 0
    if not any(symb(a) for a in list(args) + list(kw.values())):
        return fmt.format(*args, **kw)
    out, auto = '', 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if name is None:
            continue
        if name == '':
            v, auto = args[auto], auto + 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise core.Unsupported('format field ' + name)
        out = out + token(v, spec or '', ord(conv) if conv else -1)
    return out


def text_percent(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    if isinstance(arg, dict) or not any(isinstance(a, (Sym, SymStr)) or isinstance(a, SymArray) and a.ndim == 0 for a in args):
        return fmt % arg
    out, k = '', 0
    for m in re.finditer(r'%%|%([-+ 0#]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs])|[^%]+', fmt):
        t = m.group(0)
        if t == '%%':
            out = out + '%'
        elif t[0] != '%':
            out = out + t
        else:
            v, k = args[k], k + 1
            if isinstance(v, (SymFloat,)) and m.group(2) in 'di':
                v = core.to_int(v)
            if isinstance(v, (Sym, SymStr, SymArray)):
                spec = m.group(1) + ('' if m.group(2) in 'rs' else 'd' if m.group(2) == 'i' else m.group(2))
                out = out + token(v, 'd' if spec == 'd' else spec)
            else:
                out = out + t % (v,)
    return out


class Str(metaclass=str_meta):
    def __new__(cls, x='', *a):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymArray) and x.ndim == 0:
            x = snp.el(x)
        if isinstance(x, Sym):
            d = sym_digits(x)
            if d is not None:
                return d
            if isinstance(x, (SymInt, core.SymBool)):
                return str(int(x)) if isinstance(x, SymInt) else str(bool(x))
            return token(x)
        if isinstance(x, SymArray):
            return str(to_conc(x, 'str()'))
        return str(x, *a)

    join = str.join
    maketrans = str.maketrans
    format = str.format
    find = str.find
    strip = str.strip
    split = str.split
    lower = str.lower
    replace = str.replace


def mk_struct():
    def unpack(fmt, data):
        fmt = resolve(fmt)
        if not isinstance(data, vfs.VBytes):
            return struct.unpack(fmt, data)
        f = fmt.lstrip('@=<')
        if '>' in f or '!' in f:
            raise core.Unsupported('big-endian unpack')
        n = 0
        cnt = ''
        for ch in f:
            if ch.isdigit():
                cnt += ch
            elif ch == 'h':
                n += int(cnt or 1)
                cnt = ''
            elif ch != ' ':
                raise core.Unsupported('struct format ' + fmt)
        if len(data) != 2 * n:
            raise struct.error(f'unpack requires a buffer of {2 * n} bytes')
        return tuple(data.words())

    class Struct:
        def __init__(self, fmt):
            self.format = fmt = resolve(fmt)
            self.size = struct.calcsize(fmt)

        def unpack(self, data):
            return unpack(self.format, data)
    return Generic('struct', struct, unpack=unpack, Struct=Struct,
                   calcsize=lambda fmt: struct.calcsize(resolve(fmt)),
                   unpack_from=lambda fmt, d, off=0: unpack(fmt, d[off:off + struct.calcsize(resolve(fmt))]),
                   iter_unpack=lambda fmt, d: iter([unpack(fmt, d[i:i + struct.calcsize(resolve(fmt))])
                                                    for i in range(0, len(d), struct.calcsize(resolve(fmt)))]))


def mk_io(fs):
    """modules and functions bound to a virtual file system"""
    import pathlib
    import pymatreader
    import scipy.io

    def sopen(path, mode='r', *a, **k):
        p = fs.norm(path)
        if p in fs.bins:
            wf, nb = fs.bins[p]
            fs.touch('r', p)
            return vfs.VFile(wf, nb)
        raise FileNotFoundError(2, 'No such file or directory', str(path))

    path = Generic('os.path', os.path, exists=fs.exists, isfile=fs.isfile, lexists=fs.exists,
                   isdir=lambda p: fs.exists(p) and not fs.isfile(p))
    path.__dict__.update({n: getattr(os.path, n) for n in ('join', 'sep', 'basename', 'dirname', 'splitext', 'abspath',
                                                           'normpath', 'split')})
    osm = Generic('os', os, path=path, makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None, open=sopen,
                  remove=fs.remove, unlink=fs.remove, rename=fs.rename, replace=fs.rename)

    class Path(pathlib.PurePosixPath):
        def exists(self):
            return fs.exists(self)

        def is_file(self):
            return fs.isfile(self)

        def is_dir(self):
            return fs.exists(self) and not fs.isfile(self)

        def mkdir(self, *a, **k):
            pass

        def open(self, *a, **k):
            return sopen(str(self), *a, **k)
    pl = Generic('pathlib', pathlib, Path=Path, PosixPath=Path)

    def loadmat(name, mdict=None, appendmat=True, **kw):
        d = fs.load(str(name))
        if kw.get('squeeze_me'):
            d = {k: vfs.squeeze(v) if not k.startswith('__') else v for k, v in d.items()}
        return d

    def savemat(name, mdict, *a, **k):
        fs.save(str(name), mdict)
    sio = Generic('scipy.io', scipy.io, loadmat=loadmat, savemat=savemat)

    def read_mat(name, *a, **k):
        p = fs.norm(name)
        if p not in fs.mats:
            raise IOError(f'The file `{name}` does not exist')
        return fs.read(p)
    pmr = Generic('pymatreader', pymatreader, read_mat=read_mat)
    return osm, path, pl, sio, pmr, sopen


def mk_np():
    m = snp.NumpyModule()

    def fromfile(f, dtype=float, count=-1, sep='', offset=0):
        if isinstance(f, vfs.VFile):
            if np.dtype(dtype) not in (np.dtype('<i2'),):
                raise core.Unsupported('fromfile dtype')
            if offset:
                f.seek(offset, 1)
            return snp.array(f.read(2 * int(count)).words()) if count else mk([], 'i', (0,))
        raise core.Unsupported('fromfile')

    def frombuffer(b, dtype=float, count=-1, offset=0):
        if isinstance(b, vfs.VBytes):
            if np.dtype(dtype) not in (np.dtype('<i2'),):
                raise core.Unsupported('frombuffer dtype')
            w = b[offset:].words()
            return snp.array(w[:count] if count >= 0 else w)
        return from_real(np.frombuffer(b, dtype, count, offset))
    m.__dict__['fromfile'] = fromfile
    m.__dict__['frombuffer'] = frombuffer
    return m


def mk_builtins(sopen):
    b = dict(builtins.__dict__)
    b.update(int=snp.Int, float=snp.Float, str=Str, print=lambda *a, **k: None, open=sopen,
             __symx_text__=text, __symx_format__=text_format, __symx_percent__=text_percent)
    return b


def mk_time():
    return Generic('time', time)
