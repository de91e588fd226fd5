"""Shadow numpy: arrays of symbolic scalars.

SymArray is an object-dtype ndarray whose elements are Python scalars or core.Sym values, plus the
element kind ('f','i','b','o') that the corresponding real array would have.  Shape manipulation,
indexing and broadcasting are numpy's own; element semantics are core's.  Functions not modelled
here run in real numpy when all their arguments are concrete, and otherwise pin the symbolic
arguments to one model value (recorded as lost coverage).
"""
import math
import types
import warnings

import numpy as np
import z3

from . import core
from .core import (Sym, SymBool, SymFloat, SymInt, SymStr, eng, kind, s_add, s_div, s_eq, s_ite, s_isnan,
                   s_land, s_le, s_lnot, s_lor, s_lt, s_mul, s_sub, truth, zb, R)

_RANK = {'b': 0, 'i': 1, 'f': 2, 'o': 3}


class int_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt)) and True

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))


class float_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymFloat))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymFloat))


class Int(metaclass=int_meta):
    """int() for the code under test"""
    def __new__(cls, x=0, base=None):
        if base is not None:
            return int(x, base)
        if isinstance(x, SymStr):
            return x.to_int()
        if isinstance(x, Sym):
            return core.to_int(x)
        if isinstance(x, np.ndarray) and isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return Int(el(x))
        return int(x)
    from_bytes = int.from_bytes


class Float(metaclass=float_meta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymStr):
            return x.to_float()
        if isinstance(x, Sym):
            return core.cast_f(x)
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return Float(el(x))
        return float(x)
    fromhex = float.fromhex


def el(a):
    """the single element of an array"""
    return np.ndarray.item(a.view(np.ndarray)) if a.ndim else a.view(np.ndarray)[()]


def box(x):
    """element -> what indexing a real array would give"""
    t = type(x)
    if t is float:
        return np.float64(x)
    if t is bool:
        return np.bool_(x)
    if t is int:
        return np.int64(x)
    return x


def native(x):
    return x.item() if isinstance(x, np.generic) else x


def kind_of_dtype(t):
    if t is None:
        return None
    if t is Int or t is int:
        return 'i'
    if t is Float or t is float:
        return 'f'
    if t is bool:
        return 'b'
    if t is object:
        return 'o'
    try:
        k = np.dtype(t).kind
    except TypeError:
        return 'o'
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'o')


def real_dtype(t):
    return {Int: int, Float: float}.get(t, t) if isinstance(t, type) else t


def cast(x, k):
    """element cast to kind"""
    if k == 'f':
        if isinstance(x, (str, SymStr)):
            return Float(x)
        return native(core.cast_f(x)) if not isinstance(x, Sym) else core.cast_f(x)
    if k == 'i':
        if isinstance(x, (SymFloat,)):
            if x.n is not False and (x.n is True or eng().fork(x.n)):
                return -2 ** 63
            return core.to_int(x)
        if isinstance(x, Sym):
            return core.to_int(x)
        if isinstance(x, (str, SymStr)):
            return Int(x)
        if isinstance(x, float) and (x != x or math.isinf(x)):
            return -2 ** 63
        return int(x)
    if k == 'b':
        if isinstance(x, Sym):
            return truth(x)
        return bool(x)
    return x


def plain(a):
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def scan_kind(flat, default='f'):
    r = -1
    for x in flat:
        k = _RANK[kind(x)]
        if k > r:
            r = k
            if r == 3:
                break
    if r < 0:
        return default
    return 'bifo'[r]


class SymArray(np.ndarray):
    __array_priority__ = 1000.0

    def __array_finalize__(self, obj):
        if obj is not None:
            self.sk = getattr(obj, 'sk', None) or 'f'

    # numpy protocols -------------------------------------------------------------------------
    def __array_ufunc__(self, uf, method, *inputs, out=None, where=True, **kw):
        if method == '__call__' and where is True and uf.__name__ in UFUNCS:
            r = UFUNCS[uf.__name__](*inputs)
            if out is not None:
                o = out[0]
                o[...] = r
                return o
            return r
        if method == 'reduce':
            axis = kw.get('axis', 0)
            kd = kw.get('keepdims', False)
            name = {'add': 'sum', 'multiply': 'prod', 'maximum': 'amax', 'minimum': 'amin', 'logical_and': 'all',
                    'logical_or': 'any'}.get(uf.__name__)
            if name:
                return getattr(NP, name)(inputs[0], axis=axis, keepdims=kd)
        if method == 'accumulate' and uf.__name__ == 'add':
            return NP.cumsum(*inputs)
        if method == 'outer' and uf.__name__ in UFUNCS:
            a, b = asarr(inputs[0]), asarr(inputs[1])
            return UFUNCS[uf.__name__](a.reshape(a.shape + (1,) * b.ndim), b)
        return fallback(getattr(uf, method), uf.__name__ + '.' + method)(*inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is not None:
            return f(*args, **kwargs)
        return fallback(func, func.__name__)(*args, **kwargs)

    # indexing ---------------------------------------------------------------------------------
    def __getitem__(self, idx):
        idx = norm_index(idx)
        r = np.ndarray.__getitem__(self.view(np.ndarray), idx)
        if isinstance(r, np.ndarray):
            if r.dtype == object and not (r.ndim == 0 and not _has_ellipsis(idx) and False):
                r = r.view(SymArray)
                r.sk = self.sk
                return r
        return box(r)

    def __setitem__(self, idx, val):
        v = self.view(np.ndarray)
        # whole-array boolean mask: merge instead of forking
        if isinstance(idx, SymArray) and idx.sk == 'b' and idx.shape == self.shape:
            m = plain(idx)
            symb = any(isinstance(x, Sym) for x in m.flat)
            va = asarr(val)
            if symb and va.size == 1:
                x = cast(el(va.reshape(1)), self.sk)
                for k in np.ndindex(*self.shape):
                    c = m[k]
                    if c is False:
                        continue
                    v[k] = x if c is True else s_ite(c, x, v[k])
                return
        nidx = norm_index(idx)
        tgt = np.ndarray.__getitem__(v, nidx)
        if not isinstance(tgt, np.ndarray):
            if isinstance(val, (list, tuple)):
                val = array(val)
            if isinstance(val, np.ndarray):
                if val.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                val = el(asarr(val))
            if isinstance(val, str) and self.sk != 'o':
                val = cast(val, self.sk)
            x = native(val)
            if self.sk == 'i' and isinstance(x, float) and (x != x or math.isinf(x)):
                raise ValueError('cannot convert float NaN to integer')
            np.ndarray.__setitem__(v, nidx, cast(x, self.sk))
            return
        va = asarr(val)
        if self.sk != 'o' and va.sk != self.sk:
            va = promote(va, self.sk)
        np.ndarray.__setitem__(v, nidx, plain(va))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    # scalar conversions
    def _one(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return el(self)

    def __bool__(self):
        if self.size == 0:
            return False
        return bool(self._one())

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(el(self))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(el(self))

    def __index__(self):
        if self.ndim == 0 and self.sk == 'i':
            return el(self).__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, x):
        return bool(NP.any(self == x))

    def __len__(self):
        return np.ndarray.__len__(self)

    def __repr__(self):
        return f'<sym array {self.shape} {self.sk}>'

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        return self.__repr__()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise core.Unsupported('pickling a symbolic array')

    # methods ------------------------------------------------------------------------------------
    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}.get(self.sk, np.dtype(object))

    def copy(self, order='C'):
        return mka(plain(self).copy(), self.sk)

    def astype(self, t, *a, **k):
        kk = kind_of_dtype(t)
        return promote(self, kk, force=True)

    def item(self, *a):
        if a:
            return native(box(np.ndarray.item(plain(self), *a)))
        return el(self)

    def tolist(self):
        return plain(self).tolist()

    def fill(self, x):
        self[...] = x

    def _axis(name):                                    # noqa: N805
        def m(self, axis=None, *a, **k):
            k.pop('out', None)
            k.pop('dtype', None)
            return getattr(NP, name)(self, axis=axis, **k)
        m.__name__ = name
        return m
    sum = _axis('sum')
    mean = _axis('mean')
    min = _axis('amin')
    max = _axis('amax')
    any = _axis('any')
    all = _axis('all')
    argmin = _axis('argmin')
    argmax = _axis('argmax')
    prod = _axis('prod')
    var = _axis('var')
    std = _axis('std')
    cumsum = _axis('cumsum')
    ptp = _axis('ptp')
    del _axis

    def argsort(self, axis=-1, kind=None, **k):
        return NP.argsort(self, axis=axis, kind=kind)

    def sort(self, axis=-1, kind=None, **k):
        self[...] = NP.sort(self, axis=axis)

    def nonzero(self):
        return NP.nonzero(self)

    def dot(self, o):
        return NP.dot(self, o)

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def clip(self, a_min=None, a_max=None, **k):
        return NP.clip(self, a_min, a_max)

    def repeat(self, r, axis=None):
        return NP.repeat(self, r, axis)

    def take(self, i, axis=None, **k):
        return NP.take(self, i, axis)

    def compress(self, cond, axis=None):
        return NP.compress(cond, self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return NP.searchsorted(self, v, side)

    def trace(self, *a, **k):
        return NP.trace(self)

    def diagonal(self, *a, **k):
        return NP.diagonal(self, *a, **k)

    def put(self, ind, v, **k):
        self.reshape(-1)[ind] = v

    def flatten(self, order='C'):
        return mka(plain(self).flatten(order), self.sk)

    # operators
    def __add__(self, o): return ew(core.s_add, self, o)
    def __radd__(self, o): return ew(core.s_add, o, self)
    def __sub__(self, o): return ew(core.s_sub, self, o)
    def __rsub__(self, o): return ew(core.s_sub, o, self)
    def __mul__(self, o): return ew(core.s_mul, self, o)
    def __rmul__(self, o): return ew(core.s_mul, o, self)
    def __truediv__(self, o): return ew(core.s_div, self, o, rk='f')
    def __rtruediv__(self, o): return ew(core.s_div, o, self, rk='f')
    def __floordiv__(self, o): return ew(core.s_floordiv, self, o)
    def __rfloordiv__(self, o): return ew(core.s_floordiv, o, self)
    def __mod__(self, o): return ew(core.s_mod, self, o)
    def __rmod__(self, o): return ew(core.s_mod, o, self)
    def __pow__(self, o, m=None): return ew(core.s_pow, self, o)
    def __rpow__(self, o): return ew(core.s_pow, o, self)
    def __matmul__(self, o): return NP.matmul(self, o)
    def __rmatmul__(self, o): return NP.matmul(o, self)
    def __neg__(self): return ew1(core.s_neg, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew1(core.s_abs, self)
    def __invert__(self): return ew1(core.s_not, self)
    def __lt__(self, o): return ew(core.s_lt, self, o, rk='b')
    def __le__(self, o): return ew(core.s_le, self, o, rk='b')
    def __gt__(self, o): return ew(core.s_gt, self, o, rk='b')
    def __ge__(self, o): return ew(core.s_ge, self, o, rk='b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return mka(np.frompyfunc(lambda x: x == o, 1, 1)(plain(self)), 'b') if self.sk == 'o' else False
        return ew(core.s_eq, self, o, rk='b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return mka(np.frompyfunc(lambda x: x != o, 1, 1)(plain(self)), 'b') if self.sk == 'o' else True
        return ew(core.s_ne, self, o, rk='b')

    def __and__(self, o): return ew(core.s_and, self, o)
    def __rand__(self, o): return ew(core.s_and, o, self)
    def __or__(self, o): return ew(core.s_or, self, o)
    def __ror__(self, o): return ew(core.s_or, o, self)
    def __xor__(self, o): return ew(core.s_xor, self, o)
    def __rxor__(self, o): return ew(core.s_xor, o, self)

    def _in(self, r):
        if self.sk == 'i' and getattr(r, 'sk', kind(r)) == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        if isinstance(r, np.ndarray) and r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o): return self._in(self + o)
    def __isub__(self, o): return self._in(self - o)
    def __imul__(self, o): return self._in(self * o)
    def __itruediv__(self, o): return self._in(self / o)
    def __ifloordiv__(self, o): return self._in(self // o)
    def __ipow__(self, o): return self._in(self ** o)
    def __imod__(self, o): return self._in(self % o)
    def __iand__(self, o): return self._in(self & o)
    def __ior__(self, o): return self._in(self | o)
    def __ixor__(self, o): return self._in(self ^ o)


def _has_ellipsis(idx):
    return idx is Ellipsis or (isinstance(idx, tuple) and any(i is Ellipsis for i in idx))


def mka(a, sk):
    """wrap an object ndarray"""
    if not isinstance(a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = a
        a = b
    r = a.view(SymArray)
    r.sk = sk
    return r


def mk(elems, sk, shape):
    a = np.empty(shape, dtype=object)
    flat = a.reshape(-1)
    for i, x in enumerate(elems):
        flat[i] = x
    return mka(a.reshape(shape), sk)


def promote(a, k, force=False):
    if k is None or a.sk == k or k == 'o':
        return a.copy() if force else a
    p = plain(a)
    out = np.empty(p.shape, dtype=object)
    of, pf = out.reshape(-1), p.reshape(-1)
    for i in range(pf.size):
        of[i] = cast(pf[i], k)
    return mka(out, k)


def from_real(r):
    """wrap the result of a real numpy call"""
    if isinstance(r, np.ndarray):
        if isinstance(r, SymArray):
            return r
        if r.dtype == object:
            return mka(r, scan_kind(r.reshape(-1)))
        k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(r.dtype.kind)
        if k is None:
            return r
        return mka(r.astype(object), k)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return type(r)(*[from_real(x) for x in r])
        return tuple(from_real(x) for x in r)
    if isinstance(r, list):
        return [from_real(x) for x in r]
    return r


def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(obj, SymArray):
        r = obj.copy() if copy else obj
    elif isinstance(obj, np.ndarray):
        r = from_real(obj)
    elif isinstance(obj, Sym):
        r = mka(obj, obj.kind)
    elif isinstance(obj, (list, tuple)):
        r = _from_seq(obj)
    elif isinstance(obj, (int, float, bool, np.generic)) and isnum_(obj):
        r = mka(native(obj), kind(obj))
    elif isinstance(obj, range):
        r = mk(list(obj), 'i', (len(obj),))
    elif hasattr(obj, '__array__') or isinstance(obj, (set, dict, str)) or obj is None:
        return np.array(obj, dtype=real_dtype(dtype))
    else:
        try:
            r = _from_seq(list(obj))
        except TypeError:
            return np.array(obj, dtype=real_dtype(dtype))
    if k is not None and k != r.sk:
        r = promote(r, k)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def isnum_(x):
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_))


def _from_seq(seq):
    seq = list(seq)
    if not seq:
        return mk([], 'f', (0,))
    subs = []
    scal = 0
    for x in seq:
        if isinstance(x, (list, tuple)):
            subs.append(_from_seq(x))
        elif isinstance(x, np.ndarray):
            subs.append(asarr(x))
        elif isinstance(x, range):
            subs.append(_from_seq(x))
        else:
            scal += 1
            subs.append(x)
    if scal == len(subs):
        if any(isinstance(x, (str, SymStr)) or x is None for x in subs):
            if not any(isinstance(x, Sym) for x in subs) and not any(isinstance(x, SymStr) for x in subs):
                from .sext import resolve
                return np.array([resolve(x) for x in seq])
            return mk(subs, 'o', (len(subs),))
        k = scan_kind(subs)
        return mk([native(cast(native(x), k)) if k != 'o' else x for x in subs], k, (len(subs),))
    arrs = [x if isinstance(x, np.ndarray) else array(x) for x in subs]
    shapes = {a.shape for a in arrs}
    if len(shapes) != 1:
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape '
                         'after 1 dimensions.')
    if any(not isinstance(a, SymArray) for a in arrs):
        if all(not isinstance(a, SymArray) for a in arrs):
            return np.array(seq)
        arrs = [a if isinstance(a, SymArray) else mka(a.astype(object), 'o') for a in arrs]
    k = 'bifo'[max(_RANK[a.sk] for a in arrs)]
    return mka(np.stack([plain(promote(a, k)) for a in arrs]), k)


def asarr(x):
    if isinstance(x, SymArray):
        return x
    r = array(x, copy=False)
    if not isinstance(r, SymArray):
        r = mka(np.asarray(r).astype(object), 'o')
    return r


def asl(x):
    """object ndarray (not subclass)"""
    return plain(asarr(x))


def out(a, k=None):
    """wrap an object array or a scalar result"""
    if isinstance(a, np.ndarray):
        return mka(a, k or scan_kind(a.reshape(-1)))
    return box(native(a))


def _bind(f):
    return np.frompyfunc(f, 2, 1)


_FROM2 = {}


def ew(f, a, b, rk=None):
    sc = not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and \
        not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple))
    if sc:
        return box(native(f(native(a), native(b))))
    A, B = asarr(a), asarr(b)
    u = _FROM2.get(f)
    if u is None:
        u = _FROM2[f] = np.frompyfunc(f, 2, 1)
    r = u(plain(A), plain(B))
    if not isinstance(r, np.ndarray):
        return box(native(r))
    if rk is None:
        if r.size == 0:
            rk = 'bif'[max(_RANK[A.sk], _RANK[B.sk])] if max(_RANK[A.sk], _RANK[B.sk]) < 3 else 'o'
        else:
            rk = scan_kind(r.reshape(-1))
            if rk in 'bi' and 'f' in (A.sk, B.sk):
                rk = 'f' if f in _ARITH else rk
    if rk == 'f':
        r = _fix(r)
    return mka(r, rk)


def _fix(r):
    fl = r.reshape(-1)
    for i in range(fl.size):
        x = fl[i]
        if type(x) is int or type(x) is bool:
            if not fl.flags.owndata and fl.base is not r and not np.shares_memory(fl, r):
                return mk([float(y) if type(y) in (int, bool) else y for y in fl], 'f', r.shape).view(np.ndarray)
            fl[i] = float(x)
        elif isinstance(x, (SymInt, SymBool)):
            fl[i] = core.cast_f(x)
    return fl.reshape(r.shape)


_ARITH = {core.s_add, core.s_sub, core.s_mul, core.s_div, core.s_pow, core.s_floordiv, core.s_mod, core.s_max,
          core.s_min, core.s_fmax, core.s_fmin}


def ew1(f, a, rk=None):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return box(native(f(native(a))))
    A = asarr(a)
    r = np.frompyfunc(f, 1, 1)(plain(A))
    if not isinstance(r, np.ndarray):
        return box(native(r))
    return mka(r, rk or (scan_kind(r.reshape(-1)) if r.size else A.sk))


def conc_index_arr(a):
    """array index -> concrete integer or boolean array"""
    p = plain(a)
    if a.sk == 'b':
        o = np.empty(p.shape, dtype=bool)
        for k in np.ndindex(*p.shape):
            o[k] = bool(p[k])
        return o
    if a.sk == 'i':
        o = np.empty(p.shape, dtype=np.int64)
        for k in np.ndindex(*p.shape):
            o[k] = int(p[k])
        return o
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def norm_index(idx):
    if isinstance(idx, tuple):
        return tuple(_norm1(i) for i in idx)
    return _norm1(idx)


def _norm1(i):
    if isinstance(i, SymArray):
        return conc_index_arr(i)
    if isinstance(i, SymInt):
        return int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymFloat):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if isinstance(i, list):
        if not i:
            return np.array([], dtype=int)
        a = array(i)
        if isinstance(a, SymArray):
            return conc_index_arr(a)
        return a
    if isinstance(i, slice):
        def c(v):
            if v is None:
                return None
            if isinstance(v, SymArray):
                return v.__index__()
            if isinstance(v, (Sym,)):
                return v.__index__()
            return v
        return slice(c(i.start), c(i.stop), c(i.step))
    return i


# ------------------------------------------------------------------------------------------------
# concretisation and fallback

def is_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(e, Sym) for e in plain(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(is_sym(e) for e in x)
    if isinstance(x, dict):
        return any(is_sym(e) for e in x.values())
    return False


def to_conc(x, why):
    if isinstance(x, SymArray):
        p = plain(x)
        vals = [eng().pin(e, why) if isinstance(e, Sym) else e for e in p.reshape(-1)]
        if x.sk in 'fib':
            return np.array(vals, dtype={'f': float, 'i': int, 'b': bool}[x.sk]).reshape(p.shape)
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return o.reshape(p.shape)
    if isinstance(x, Sym):
        return eng().pin(x, why)
    if isinstance(x, list):
        return [to_conc(e, why) for e in x]
    if isinstance(x, tuple):
        return tuple(to_conc(e, why) for e in x)
    if x is Int:
        return int
    if x is Float:
        return float
    return x


def fallback(func, name):
    def call(*args, **kw):
        why = 'numpy.' + name if not name.startswith(('scipy', 'gsw')) else name
        try:
            a = [to_conc(x, why) for x in args]
            k = {q: to_conc(v, why) for q, v in kw.items()}
        except core.Unsupported as e:
            eng().taint.append(str(e))
            raise
        return from_real(func(*a, **k))
    call.__name__ = name
    return call


# ------------------------------------------------------------------------------------------------
# the numpy module

NP = types.SimpleNamespace()


def reg(*names):
    def d(f):
        for n in names or (f.__name__,):
            setattr(NP, n, f)
        return f
    return d


UFUNCS = {}


def _u2(name, f, rk=None, *alias):
    def g(a, b, out=None, where=True, **kw):
        if where is not True:
            w = asarr(where)
            base = out if out is not None else NP.zeros(np.broadcast(asl(a), asl(b)).shape)
            r = base if out is not None else base
            A, B, Wm = np.broadcast_arrays(asl(a), asl(b), plain(w))
            for k in np.ndindex(*A.shape):
                if bool(Wm[k]):
                    r[k] = f(A[k], B[k])
            return r
        r = ew(f, a, b, rk)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    g.reduce = lambda a, axis=0, **k: {'add': NP_('sum'), 'multiply': NP_('prod'), 'maximum': NP_('amax'),
                                       'minimum': NP_('amin'), 'logical_and': NP_('all'),
                                       'logical_or': NP_('any')}[name](a, axis=axis, **k)
    g.outer = lambda a, b: g(asarr(a).reshape(asarr(a).shape + (1,) * asarr(b).ndim), b)
    g.at = _ufunc_at(f)
    g.accumulate = lambda a, axis=0: NP.cumsum(a, axis=axis)
    for n in (name,) + alias:
        setattr(NP, n, g)
        UFUNCS[n] = g


def _ufunc_at(f):
    def at(a, idx, b=None):
        idx = norm_index(idx)
        for i in np.atleast_1d(idx):
            a[i] = f(a[i], b)
    return at


def NP_(n):
    return getattr(NP, n)


def _u1(name, f, rk=None, *alias):
    def g(a, out=None, where=True, **kw):
        r = ew1(f, a, rk)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    for n in (name,) + alias:
        setattr(NP, n, g)
        UFUNCS[n] = g


_u2('add', core.s_add)
_u2('subtract', core.s_sub)
_u2('multiply', core.s_mul)
_u2('divide', core.s_div, 'f', 'true_divide')
_u2('floor_divide', core.s_floordiv)
_u2('remainder', core.s_mod, None, 'mod')
_u2('fmod', core.s_fmod)
_u2('power', core.s_pow)
_u2('float_power', lambda a, b: core.cast_f(core.s_pow(core.cast_f(a), b)), 'f')
_u2('maximum', core.s_max)
_u2('minimum', core.s_min)
_u2('fmax', core.s_fmax)
_u2('fmin', core.s_fmin)
_u2('less', core.s_lt, 'b')
_u2('less_equal', core.s_le, 'b')
_u2('greater', core.s_gt, 'b')
_u2('greater_equal', core.s_ge, 'b')
_u2('equal', core.s_eq, 'b')
_u2('not_equal', core.s_ne, 'b')
_u2('logical_and', core.s_land, 'b')
_u2('logical_or', core.s_lor, 'b')
_u2('logical_xor', core.s_lxor, 'b')
_u2('bitwise_and', core.s_and)
_u2('bitwise_or', core.s_or)
_u2('bitwise_xor', core.s_xor)
_u2('hypot', lambda a, b: core.s_sqrt(s_add(s_mul(a, a), s_mul(b, b))), 'f')
_u1('negative', core.s_neg)
_u1('positive', lambda a: a)
_u1('absolute', core.s_abs, None, 'abs')
_u1('fabs', lambda a: core.cast_f(core.s_abs(a)), 'f')
_u1('sqrt', core.s_sqrt, 'f')
_u1('square', lambda a: core.s_pow(a, 2))
_u1('exp', core.s_exp, 'f')
_u1('log', core.s_log, 'f')
_u1('sin', core.s_sin, 'f')
_u1('cos', core.s_cos, 'f')
_u1('tan', core.s_tan, 'f')
_u1('arctan', core.s_arctan, 'f')
_u1('arcsin', core.s_arcsin, 'f')
_u1('arccos', core.s_arccos, 'f')
_u1('radians', core.s_radians, 'f', 'deg2rad')
_u1('degrees', lambda a: s_mul(a, 180 / math.pi), 'f', 'rad2deg')
_u1('reciprocal', lambda a: s_div(1.0, a))
_u1('floor', core.s_floor, 'f')
_u1('ceil', core.s_ceil, 'f')
_u1('trunc', core.s_trunc, 'f', 'fix')
_u1('rint', core.s_round, 'f')
_u1('sign', core.s_sign)
_u1('isnan', core.s_isnan, 'b')
_u1('isfinite', core.s_isfinite, 'b')
_u1('isinf', core.s_isinf, 'b')
_u1('logical_not', core.s_lnot, 'b')
_u1('invert', core.s_not, None, 'bitwise_not')
_u1('isneginf', lambda a: False if isinstance(a, Sym) else bool(a == -math.inf), 'b')
_u1('isposinf', lambda a: False if isinstance(a, Sym) else bool(a == math.inf), 'b')


@reg('round', 'around', 'round_')
def np_round(a, decimals=0, out=None):
    return ew1(lambda x: core.s_round(x, decimals), a)


# creation ---------------------------------------------------------------------------------------
reg('array')(array)


@reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def asarray(a, dtype=None, **k):
    r = array(a, copy=False)
    kk = kind_of_dtype(dtype)
    if kk is not None and isinstance(r, SymArray) and r.sk != kk:
        r = promote(r, kk)
    return r


def _shape(s):
    if isinstance(s, SymArray):
        s = [int(x) for x in plain(s).reshape(-1)]
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    if isinstance(s, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, SymFloat):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (s.__index__(),)


def _full(shape, val, k):
    a = np.empty(_shape(shape), dtype=object)
    a.fill(None)
    a[...] = val
    return mka(a, k)


@reg()
def zeros(shape, dtype=float, order='C', **kw):
    k = kind_of_dtype(dtype) or 'f'
    return _full(shape, {'f': 0.0, 'i': 0, 'b': False, 'o': 0}[k], k)


@reg()
def ones(shape, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype) or 'f'
    return _full(shape, {'f': 1.0, 'i': 1, 'b': True, 'o': 1}[k], k)


@reg()
def empty(shape, dtype=float, order='C', **kw):
    k = kind_of_dtype(dtype) or 'f'
    r = _full(shape, {'f': 0.0, 'i': 0, 'b': False, 'o': None}[k], k)
    e = eng()
    if k == 'f' and e is not None:
        # uninitialised memory: an arbitrary value
        f = plain(r).reshape(-1)
        for i in range(min(f.size, 4096)):
            f[i] = SymFloat(e.fresh_real('uninit'))
    return r


@reg()
def full(shape, fill_value, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype)
    sh = _shape(shape)
    fv = asarr(fill_value)
    kk = k or fv.sk
    a = np.empty(sh, dtype=object)
    a[...] = np.broadcast_to(plain(promote(fv, kk)), sh)
    return mka(a.copy(), kk)


def _like(a):
    a = asarr(a)
    return a


@reg()
def zeros_like(a, dtype=None, shape=None, **k):
    a = _like(a)
    return zeros(shape if shape is not None else a.shape, dtype=dtype or _dt(a.sk))


@reg()
def ones_like(a, dtype=None, shape=None, **k):
    a = _like(a)
    return ones(shape if shape is not None else a.shape, dtype=dtype or _dt(a.sk))


@reg()
def empty_like(a, dtype=None, shape=None, **k):
    a = _like(a)
    return empty(shape if shape is not None else a.shape, dtype=dtype or _dt(a.sk))


@reg()
def full_like(a, fill_value, dtype=None, shape=None, **k):
    a = _like(a)
    kk = kind_of_dtype(dtype) or a.sk
    if kk == 'i' and isinstance(fill_value, float) and fill_value != fill_value:
        fill_value = -2 ** 63
    return full(shape if shape is not None else a.shape, fill_value, dtype=_dt(kk))


def _dt(k):
    return {'f': float, 'i': int, 'b': bool, 'o': object}[k]


@reg()
def arange(*args, dtype=None, **kw):
    args = list(args)
    if 'stop' in kw:
        args = [kw.get('start', 0), kw['stop']] + ([kw['step']] if 'step' in kw else [])
    elif 'step' in kw:
        args = (args if len(args) == 2 else [0] + args) + [kw['step']]
    if len(args) == 4:
        dtype = args.pop()
    args = [el(asarr(a)) if isinstance(a, np.ndarray) else native(a) for a in args]
    if not any(isinstance(a, Sym) for a in args):
        r = np.arange(*args, dtype=real_dtype(dtype))
        return from_real(r)
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    n = s_div(s_sub(stop, start), step)
    if isinstance(n, float) and n != n or core.isinf(n):
        raise ValueError('arange: cannot compute length')
    if s_is_true(s_isnan(n)):
        raise ValueError('arange: cannot compute length')
    n = core.to_int(core.s_ceil(n))
    n = int(n) if not isinstance(n, int) else n
    if n > 5000:
        eng().abort('arange too long')
    k = kind_of_dtype(dtype) or ('f' if any(kind(a) == 'f' for a in (start, stop, step)) else 'i')
    vals = [cast(s_add(start, s_mul(i, step)), k) for i in range(max(n, 0))]
    return mk(vals, k, (len(vals),))


def s_is_true(c):
    return bool(c)


@reg()
def linspace(start, stop, num=50, endpoint=True, **kw):
    if not is_sym([start, stop]):
        return from_real(np.linspace(start, stop, int(num), endpoint=endpoint))
    num = int(num)
    d = num - 1 if endpoint else num
    vals = [core.cast_f(s_add(start, s_mul(s_sub(stop, start), i / d if d else 0.0))) for i in range(num)]
    return mk(vals, 'f', (num,))


@reg('eye')
def eye(n, m=None, k=0, dtype=float, **kw):
    return from_real(np.eye(int(n), None if m is None else int(m), k, dtype=real_dtype(dtype)))


@reg()
def identity(n, dtype=None):
    return from_real(np.identity(int(n), dtype=real_dtype(dtype) or float))


# structure --------------------------------------------------------------------------------------

def _arrs(seq):
    if isinstance(seq, SymArray) and seq.ndim > 0:
        seq = [seq[i] for i in range(seq.shape[0])]
    xs = [asarr(x) for x in seq]
    k = 'bifo'[max([_RANK[x.sk] for x in xs], default=2)]
    return [plain(promote(x, k)) if k != 'o' else plain(x) for x in xs], k


def _joiner(name):
    f = getattr(np, name)

    def g(seq, axis=None, *a, **kw):
        kw.pop('dtype', None)
        kw.pop('out', None)
        xs, k = _arrs(seq)
        if name in ('concatenate', 'stack'):
            return mka(f(xs, axis if axis is not None or name == 'stack' else None, *a, **kw), k)
        return mka(f(xs, *a, **kw), k)
    g.__name__ = name
    return g


@reg()
def concatenate(seq, axis=0, out=None, **kw):
    if not isinstance(seq, (list, tuple, np.ndarray)):
        seq = list(seq)
    if not isinstance(axis, (int, type(None), np.integer)):
        raise TypeError("'list' object cannot be interpreted as an integer")
    xs, k = _arrs(seq)
    return mka(np.concatenate(xs, axis), k)


@reg()
def stack(seq, axis=0, **kw):
    xs, k = _arrs(seq)
    return mka(np.stack(xs, axis), k)


for _n in ('hstack', 'vstack', 'column_stack', 'dstack'):
    setattr(NP, _n, _joiner(_n))
NP.row_stack = NP.vstack


@reg()
def block(x):
    def conv(y):
        return [conv(z) for z in y] if isinstance(y, list) else asl(y)
    return out(np.block(conv(x)))


@reg()
def append(arr, values, axis=None):
    xs, k = _arrs([arr, values])
    return mka(np.append(xs[0], xs[1], axis), k)


@reg()
def insert(arr, obj, values, axis=None):
    a = asarr(arr)
    v = promote(asarr(values), a.sk)
    return mka(np.insert(plain(a), cidx(obj), plain(v), axis), a.sk)


def cidx(obj):
    """concrete index argument"""
    if isinstance(obj, SymArray):
        if obj.size == 0:
            return np.zeros(obj.shape, dtype=int)
        return conc_index_arr(obj)
    if isinstance(obj, (list, tuple)):
        return cidx(array(list(obj))) if len(obj) else np.array([], dtype=int)
    if isinstance(obj, Sym):
        return obj.__index__()
    return obj


@reg()
def delete(arr, obj, axis=None):
    a = asarr(arr)
    return mka(np.delete(plain(a), cidx(obj), axis), a.sk)


@reg()
def reshape(a, shape, order='C', **kw):
    a = asarr(a)
    return mka(np.reshape(plain(a), _shape(shape) if not isinstance(shape, int) else shape, order), a.sk)


def _simple(name):
    f = getattr(np, name)

    def g(a, *args, **kw):
        x = asarr(a)
        r = f(plain(x), *[cidx(q) if isinstance(q, (SymArray, Sym)) else q for q in args],
              **{q: (cidx(v) if isinstance(v, (SymArray, Sym)) else v) for q, v in kw.items()})
        if isinstance(r, np.ndarray):
            return mka(r, x.sk)
        if isinstance(r, (list, tuple)):
            return type(r)(mka(q, x.sk) for q in r)
        return box(r)
    g.__name__ = name
    return g


for _n in ('transpose', 'squeeze', 'expand_dims', 'ravel', 'tile', 'flip', 'fliplr', 'flipud', 'roll', 'rot90',
           'repeat', 'take', 'diag', 'diagonal', 'swapaxes', 'moveaxis', 'rollaxis', 'split', 'array_split', 'hsplit',
           'vsplit', 'broadcast_to', 'triu', 'tril', 'resize', 'diagflat', 'atleast_1d', 'atleast_2d', 'atleast_3d',
           'trim_zeros'):
    setattr(NP, _n, _simple(_n))


def _atl(name):
    f = getattr(np, name)

    def g(*args):
        r = []
        for a in args:
            x = asarr(a)
            r.append(mka(f(plain(x)), x.sk))
        return r[0] if len(r) == 1 else r
    return g


for _n in ('atleast_1d', 'atleast_2d', 'atleast_3d'):
    setattr(NP, _n, _atl(_n))


@reg()
def copy(a, *args, **k):
    return asarr(a).copy()


@reg()
def shape(a):
    return asarr(a).shape


@reg()
def ndim(a):
    return asarr(a).ndim


@reg()
def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


@reg()
def meshgrid(*xs, **kw):
    arrs = [asarr(x) for x in xs]
    r = np.meshgrid(*[plain(a) for a in arrs], **kw)
    return [mka(q.copy() if not q.flags.writeable else q, a.sk) for q, a in zip(r, arrs)]


@reg()
def broadcast_arrays(*xs, **kw):
    arrs = [asarr(x) for x in xs]
    r = np.broadcast_arrays(*[plain(a) for a in arrs])
    return [mka(q, a.sk) for q, a in zip(r, arrs)]


@reg()
def ix_(*args):
    return np.ix_(*[np.atleast_1d(cidx(a)) for a in args])


@reg()
def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = NP.where(where, src, dst)


@reg()
def putmask(a, mask, values):
    a[...] = NP.where(mask, values, a)


@reg()
def place(a, mask, values):
    a[mask] = values


@reg()
def compress(cond, a, axis=None, out=None):
    c = conc_index_arr(promote(asarr(cond), 'b'))
    a = asarr(a)
    return mka(np.compress(c, plain(a), axis), a.sk)


@reg()
def extract(cond, a):
    return compress(asarr(cond).reshape(-1), asarr(a).reshape(-1))


# reductions --------------------------------------------------------------------------------------

def _reduce(fn, a, axis, keepdims=False, rk=None):
    """fn: list of elements -> element"""
    x = asarr(a)
    p = plain(x)
    if axis is None:
        r = fn(list(p.reshape(-1)))
        if keepdims:
            return mk([r], rk or kind(r), (1,) * p.ndim)
        return box(native(r))
    if isinstance(axis, tuple):
        ax = sorted(q % p.ndim for q in axis)
        rest = [i for i in range(p.ndim) if i not in ax]
        q = np.transpose(p, rest + ax).reshape(tuple(p.shape[i] for i in rest) + (-1,))
        r = _reduce(fn, mka(q, x.sk), -1, False, rk)
        if keepdims:
            r = asarr(r).reshape(tuple(1 if i in ax else p.shape[i] for i in range(p.ndim)))
        return r
    axis = int(axis)
    if not -p.ndim <= axis < p.ndim:
        raise np.AxisError(axis, p.ndim)
    q = np.moveaxis(p, axis, -1)
    o = np.empty(q.shape[:-1], dtype=object)
    for k in np.ndindex(*q.shape[:-1]):
        o[k] = native(fn(list(q[k])))
    if q.ndim == 1:
        r = o[()]
        if keepdims:
            return mk([r], rk or kind(r), (1,))
        return box(r)
    k = rk or (scan_kind(o.reshape(-1)) if o.size else x.sk)
    if k == 'f':
        o = _fix(o)
    r = mka(o, k)
    if keepdims:
        r = mka(np.expand_dims(o, axis), k)
    return r


def l_sum(xs, default=0.0):
    if not xs:
        return default
    conc = [x for x in xs if not isinstance(x, Sym)]
    r = None
    if conc and len(conc) == len(xs):
        return native(np.sum(np.array(conc)))
    for x in xs:
        x = core.mki(core.I(x)) if isinstance(x, (SymBool,)) else (int(x) if isinstance(x, bool) else x)
        r = x if r is None else s_add(r, x)
    return r


def l_prod(xs):
    r = 1.0 if not xs else None
    for x in xs:
        x = core.mki(core.I(x)) if isinstance(x, (SymBool,)) else (int(x) if isinstance(x, bool) else x)
        r = x if r is None else s_mul(r, x)
    return r


def l_any(xs):
    r = False
    for x in xs:
        r = s_lor(r, truth(x))
    return r


def l_all(xs):
    r = True
    for x in xs:
        r = s_land(r, truth(x))
    return r


def _notnan_ct(xs):
    return l_sum([s_ite(s_isnan(x), 0, 1) for x in xs], 0)


def _zero_nan(x):
    return s_ite(s_isnan(x), 0.0, x)


def l_nansum(xs):
    return l_sum([_zero_nan(x) for x in xs])


def split_nan(xs):
    """decide which elements are NaN (forks) and return the others"""
    return [x for x in xs if not bool(s_isnan(x))]


def l_mean(xs):
    if not xs:
        return math.nan
    return s_div(core.cast_f(l_sum(xs)), len(xs))


def l_nanmean(xs):
    ys = split_nan(xs)
    return l_mean(ys)


def l_var(xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0 and n == 0:
        return math.nan
    m = l_mean(xs)
    t = l_sum([s_mul(d, d) for d in (s_sub(x, m) for x in xs)])
    if n - ddof <= 0:
        # 0/0
        return math.nan
    return s_div(core.cast_f(t), n - ddof)


def _decided(xs, better, nan):
    """extreme of values that are hard to compare: split on the comparisons instead of nesting them"""
    ys = split_nan(xs)
    if not ys or (nan == 'prop' and len(ys) < len(xs)):
        return math.nan
    r = ys[0]
    for x in ys[1:]:
        if bool(better(x, r)):
            r = x
    return r


def l_max(xs, nan='prop'):
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if any(isinstance(x, SymFloat) and core.nonlinear(x.v) for x in xs):
        return _decided(xs, core.s_gt, nan)
    r = xs[0]
    for x in xs[1:]:
        r = core.s_max(r, x) if nan == 'prop' else core.s_fmax(r, x)
    return r


def l_min(xs, nan='prop'):
    if not xs:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    if any(isinstance(x, SymFloat) and core.nonlinear(x.v) for x in xs):
        return _decided(xs, core.s_lt, nan)
    r = xs[0]
    for x in xs[1:]:
        r = core.s_min(r, x) if nan == 'prop' else core.s_fmin(r, x)
    return r


def _m_eval(m, x):
    """value of an element under a model: number (nan for NaN) / bool; constants read as in the constraints"""
    if not isinstance(x, Sym):
        return core.simplest(float(x)) if isinstance(x, (float, np.floating)) and math.isfinite(x) else x
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.b, model_completion=True))
    if isinstance(x, SymFloat) and x.n is not False:
        if x.n is True or z3.is_true(m.eval(x.n, model_completion=True)):
            return math.nan
    v = m.eval(x.v, model_completion=True)
    q = core.z3num(v)
    if q is None:
        v = m.eval(x.v, model_completion=True)
        q = core.z3num(v.approx(30)) if hasattr(v, 'approx') else 0
    return q


def l_argbest(xs, sense, nan):
    """index of the first minimum (sense=-1) or maximum (+1); nan: 'prop' or 'ignore'"""
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    if not any(isinstance(x, Sym) for x in xs):
        a = np.array(xs)
        f = {(-1, 'prop'): np.argmin, (1, 'prop'): np.argmax, (-1, 'ignore'): np.nanargmin,
             (1, 'ignore'): np.nanargmax}[(sense, nan)]
        return int(f(a))
    nans = [s_isnan(x) for x in xs]
    if nan == 'ignore' and bool(l_all(nans)):
        raise ValueError('All-NaN slice encountered')

    def better_eq(i, j):
        return s_le(xs[i], xs[j]) if sense < 0 else s_le(xs[j], xs[i])

    def better(i, j):
        return s_lt(xs[i], xs[j]) if sense < 0 else s_lt(xs[j], xs[i])

    def propose(m, k):
        if k is None:
            best = None
            for i, x in enumerate(xs):
                v = _m_eval(m, x)
                isn = v != v
                if isn:
                    if nan == 'prop':
                        best = i
                        break
                    continue
                if best is None or (v < bv if sense < 0 else v > bv):
                    best, bv = i, v
            k = best
        conds = []
        for j in range(len(xs)):
            if j == k:
                continue
            if nan == 'prop':
                if j < k:
                    c = s_land(s_lnot(nans[j]), s_lor(nans[k], better(k, j)))
                else:
                    c = s_lor(nans[k], s_land(s_lnot(nans[j]), better_eq(k, j)))
            else:
                c = s_lor(nans[j], better(k, j) if j < k else better_eq(k, j))
            conds.append(zb(c))
        if nan != 'prop':
            conds.append(zb(s_lnot(nans[k])))
        return k, z3.And(*conds) if conds else z3.BoolVal(True)
    return eng().choose(propose)


def _red(name, fn, rk=None, alias=(), extra=()):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, ddof=0, initial=None, where=None, **kw):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        if where is not None and where is not True:
            x = asarr(a)
            if name == 'sum':
                a = NP.where(where, x, 0.0 if x.sk == 'f' else 0)
            else:
                a = NP.where(where, x, math.nan)
                return getattr(NP, 'nan' + name)(a, axis=axis, keepdims=keepdims)
        if keepdims is np._NoValue:
            keepdims = False
        f = fn if not extra else (lambda xs: fn(xs, ddof))
        r = _reduce(f, a, axis, keepdims, rk)
        return r
    g.__name__ = name
    for n in (name,) + tuple(alias):
        setattr(NP, n, g)


def _sumk(xs):
    return l_sum(xs, 0.0)


_red('sum', _sumk)
_red('prod', l_prod, alias=('product',))
_red('nansum', l_nansum)
_red('mean', l_mean, 'f', alias=('average_',))
_red('nanmean', l_nanmean, 'f')
_red('var', l_var, 'f', extra=('ddof',))
_red('nanvar', lambda xs, ddof=0: l_var(split_nan(xs), ddof), 'f', extra=('ddof',))
_red('std', lambda xs, ddof=0: core.s_sqrt(l_var(xs, ddof)), 'f', extra=('ddof',))
_red('nanstd', lambda xs, ddof=0: core.s_sqrt(l_var(split_nan(xs), ddof)), 'f', extra=('ddof',))
_red('amax', l_max, alias=('max',))
_red('amin', l_min, alias=('min',))
_red('nanmax', lambda xs: l_max(xs, 'ign'))
_red('nanmin', lambda xs: l_min(xs, 'ign'))
_red('any', l_any, 'b', alias=('sometrue',))
_red('all', l_all, 'b', alias=('alltrue',))
_red('argmin', lambda xs: l_argbest(xs, -1, 'prop'), 'i')
_red('argmax', lambda xs: l_argbest(xs, 1, 'prop'), 'i')
_red('nanargmin', lambda xs: l_argbest(xs, -1, 'ignore'), 'i')
_red('nanargmax', lambda xs: l_argbest(xs, 1, 'ignore'), 'i')
_red('count_nonzero', lambda xs: l_sum([s_ite(truth(x), 1, 0) for x in xs], 0), 'i')
_red('ptp', lambda xs: s_sub(l_max(xs), l_min(xs)))
_red('median', lambda xs: _median(xs), 'f')
_red('nanmedian', lambda xs: _median(split_nan(xs)), 'f')


def _median(xs):
    if not xs:
        return math.nan
    if any(bool(s_isnan(x)) for x in xs):
        return math.nan
    p = l_argsort(xs)
    n = len(xs)
    if n % 2:
        return core.cast_f(xs[p[n // 2]])
    return s_div(s_add(xs[p[n // 2 - 1]], xs[p[n // 2]]), 2.0)


@reg()
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return NP.mean(a, axis=axis)
    w = asarr(weights)
    a = asarr(a)
    if w.shape != a.shape and axis is not None:
        w = mka(np.broadcast_to(np.expand_dims(plain(w), tuple(i for i in range(a.ndim) if i != axis % a.ndim)),
                                a.shape), w.sk)
    r = NP.sum(a * w, axis=axis) / NP.sum(w, axis=axis)
    return (r, NP.sum(w, axis=axis)) if returned else r


@reg()
def cumsum(a, axis=None, **k):
    x = asarr(a)
    p = plain(x)
    if axis is None:
        p = p.reshape(-1)
        axis = 0
    q = np.moveaxis(p, axis, -1)
    o = np.empty(q.shape, dtype=object)
    for k in np.ndindex(*q.shape[:-1]):
        acc = None
        for j in range(q.shape[-1]):
            acc = q[k + (j,)] if acc is None else s_add(acc, q[k + (j,)])
            o[k + (j,)] = acc
    return mka(np.moveaxis(o, -1, axis), x.sk)


@reg()
def diff(a, n=1, axis=-1, prepend=None, append=None):
    x = asarr(a)
    if prepend is not None:
        pp = asarr(prepend)
        x = concatenate([pp if pp.ndim else pp.reshape((1,) * x.ndim), x], axis=axis)
    if append is not None:
        pp = asarr(append)
        x = concatenate([x, pp if pp.ndim else pp.reshape((1,) * x.ndim)], axis=axis)
    for _ in range(n):
        sl1 = [slice(None)] * x.ndim
        sl2 = [slice(None)] * x.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        x = x[tuple(sl1)] - x[tuple(sl2)] if x.sk != 'b' else NP.not_equal(x[tuple(sl1)], x[tuple(sl2)])
    return x


@reg('ediff1d')
def ediff1d(a, *r, **k):
    return diff(asarr(a).reshape(-1))


# searching ---------------------------------------------------------------------------------------

@reg()
def nonzero(a):
    x = asarr(a)
    if x.ndim == 0:
        x = x.reshape(1)
    p = plain(x)
    hits = [k for k in np.ndindex(*p.shape) if bool(truth(p[k]))]
    return tuple(mk([h[d] for h in hits], 'i', (len(hits),)) for d in range(p.ndim))


@reg()
def argwhere(a):
    x = asarr(a)
    if x.ndim == 0:
        t = bool(truth(el(x)))
        return mk([], 'i', (1 if t else 0, 0))
    p = plain(x)
    hits = [k for k in np.ndindex(*p.shape) if bool(truth(p[k]))]
    return mk([i for h in hits for i in h], 'i', (len(hits), p.ndim))


@reg()
def flatnonzero(a):
    return nonzero(asarr(a).reshape(-1))[0]


@reg()
def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy
    C, X, Y = asarr(cond), asarr(x), asarr(y)
    k = 'bifo'[max(_RANK[X.sk], _RANK[Y.sk])]
    c, a, b = np.broadcast_arrays(plain(C), plain(X), plain(Y))
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        o[i] = cast(s_ite(truth(c[i]), a[i], b[i]), k)
    if o.ndim == 0:
        return mka(o, k)
    return mka(o, k)


@reg()
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@reg()
def piecewise(x, conds, funcs):
    raise core.Unsupported('piecewise')


@reg()
def clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = NP.maximum(r, a_min)
    if a_max is not None:
        r = NP.minimum(r, a_max)
    return r


@reg()
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    r = ew1(lambda x: s_ite(s_isnan(x), nan, x), a)
    return r


def l_argsort(xs):
    """stable sorting permutation, NaN last"""
    n = len(xs)
    if not any(isinstance(x, Sym) for x in xs):
        return [int(i) for i in np.argsort(np.array(xs), kind='stable')]
    nans = [s_isnan(x) for x in xs]

    def before(i, j, strict):
        # x_i sorts before x_j
        c = s_lt(xs[i], xs[j]) if strict else s_le(xs[i], xs[j])
        if strict:
            return s_lor(c, s_land(s_lnot(nans[i]), nans[j]))
        return s_lor(c, nans[j])

    def propose(m, k):
        if k is None:
            vals = [_m_eval(m, x) for x in xs]
            k = tuple(sorted(range(n), key=_Key(vals)))
        cs = [zb(before(k[i], k[i + 1], k[i] > k[i + 1])) for i in range(n - 1)]
        return k, z3.And(*cs) if cs else z3.BoolVal(True)
    return list(eng().choose(propose))


def _Key(vals):
    def key(i):
        v = vals[i]
        return (1, 0) if v != v else (0, v)
    return key


def _alongaxis(a, axis, fn, rk):
    x = asarr(a)
    p = plain(x)
    if axis is None:
        p = p.reshape(-1)
        axis = -1
    q = np.moveaxis(p, axis, -1)
    o = np.empty(q.shape, dtype=object)
    for k in np.ndindex(*q.shape[:-1]):
        for j, v in enumerate(fn(list(q[k]))):
            o[k + (j,)] = v
    return mka(np.moveaxis(o, -1, axis), rk or x.sk)


@reg()
def argsort(a, axis=-1, kind=None, order=None, stable=None):
    return _alongaxis(a, axis, l_argsort, 'i')


@reg()
def sort(a, axis=-1, kind=None, order=None, **k):
    return _alongaxis(a, axis, lambda xs: [xs[i] for i in l_argsort(xs)], None)


@reg()
def lexsort(keys, axis=-1):
    keys = [asarr(k) for k in (list(keys) if not isinstance(keys, np.ndarray) else keys)]
    n = keys[0].shape[0]
    perm = list(range(n))
    for k in keys:
        p = plain(k)
        o = l_argsort([p[i] for i in perm])
        perm = [perm[i] for i in o]
    return mk(perm, 'i', (n,))


@reg('argpartition')
def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


@reg('partition')
def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


@reg()
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True):
    if axis is not None:
        return fallback(np.unique, 'unique')(a, return_index, return_inverse, return_counts, axis)
    if not isinstance(asarray(a), SymArray):
        return np.unique(a, return_index, return_inverse, return_counts)
    x = asarr(a)
    if not is_sym(x):
        return from_real(np.unique(to_conc(x, ''), return_index, return_inverse, return_counts))
    xs = list(plain(x).reshape(-1))
    p = l_argsort(xs)
    groups = []
    for i in p:
        if groups:
            last = xs[groups[-1][0]]
            same = s_lor(s_eq(last, xs[i]), s_land(s_isnan(last), s_isnan(xs[i])) if equal_nan else False)
            if bool(same):
                groups[-1].append(i)
                continue
        groups.append([i])
    r = mk([xs[g[0]] for g in groups], x.sk, (len(groups),))
    res = [r]
    if return_index:
        res.append(mk([g[0] for g in groups], 'i', (len(groups),)))
    if return_inverse:
        inv = [0] * len(xs)
        for gi, g in enumerate(groups):
            for i in g:
                inv[i] = gi
        res.append(mk(inv, 'i', (len(xs),)))
    if return_counts:
        res.append(mk([len(g) for g in groups], 'i', (len(groups),)))
    return tuple(res) if len(res) > 1 else r


@reg('isin', 'in1d')
def isin(a, test, assume_unique=False, invert=False, **k):
    x = asarr(a)
    ts = list(plain(asarr(test)).reshape(-1))
    p = plain(x)
    o = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape):
        c = l_any([s_eq(p[i], t) for t in ts])
        o[i] = s_lnot(c) if invert else c
    return mka(o, 'b')


@reg()
def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        return fallback(np.intersect1d, 'intersect1d')(a, b, assume_unique, True)
    u = unique(a)
    m = isin(u, b)
    return u[m]


@reg()
def setdiff1d(a, b, assume_unique=False):
    u = unique(a) if not assume_unique else asarr(a).reshape(-1)
    return u[isin(u, b, invert=True)]


@reg()
def union1d(a, b):
    return unique(concatenate([asarr(a).reshape(-1), asarr(b).reshape(-1)]))


@reg()
def searchsorted(a, v, side='left', sorter=None):
    xs = list(plain(asarr(a)).reshape(-1))
    if sorter is not None:
        xs = [xs[int(i)] for i in asarr(sorter)]

    def one(x):
        if not isinstance(x, Sym) and not any(isinstance(q, Sym) for q in xs):
            return int(np.searchsorted(np.array(xs), x, side))
        f = (lambda q: s_lt(q, x)) if side == 'left' else (lambda q: s_le(q, x))
        isn = s_isnan(x)
        t = l_sum([s_ite(s_lor(isn, f(q)), 1, 0) for q in xs], 0)
        return t
    return ew1(one, v, 'i')


@reg()
def digitize(x, bins, right=False):
    b = asarr(bins)
    return searchsorted(b, x, 'left' if right else 'right')


@reg()
def interp(x, xp, fp, left=None, right=None, period=None):
    xs = list(plain(asarr(xp)).reshape(-1))
    fs = [core.cast_f(q) for q in plain(asarr(fp)).reshape(-1)]
    if len(xs) != len(fs):
        raise ValueError('fp and xp are not of the same length.')
    if not xs:
        raise ValueError('array of sample points is empty')
    if not is_sym(x) and not any(isinstance(q, Sym) for q in xs + fs):
        return from_real(np.interp(to_conc(asarr(x), ''), np.array(xs, float), np.array(fs, float), left, right)) \
            if isinstance(x, (np.ndarray, list)) else box(float(np.interp(x, xs, fs, left, right)))
    n = len(xs)
    lv = fs[0] if left is None else left
    rvl = fs[-1] if right is None else right

    def one(t):
        if bool(s_isnan(t)):
            return math.nan
        if n == 1:
            if bool(s_lt(t, xs[0])):
                return lv
            if bool(core.s_gt(t, xs[0])):
                return rvl
            return fs[0]
        # numpy: j = index of the last xp <= t (assuming increasing xp)
        if bool(core.s_gt(t, xs[-1])):
            return rvl
        if bool(s_lt(t, xs[0])):
            return lv
        # binary search as in numpy
        lo, hi = 0, n
        while lo < hi:
            mid = lo + ((hi - lo) >> 1)
            if bool(core.s_ge(t, xs[mid])):
                lo = mid + 1
            else:
                hi = mid
        j = lo - 1
        if j == -1:
            return lv
        if j == n - 1:
            return fs[j]
        if bool(s_eq(xs[j], t)):
            return fs[j]
        slope = s_div(s_sub(fs[j + 1], fs[j]), s_sub(xs[j + 1], xs[j]))
        return s_add(s_mul(slope, s_sub(t, xs[j])), fs[j])
    return ew1(one, x, 'f')


@reg()
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def one(x, y):
        if _conc(x) and _conc(y):
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        c = s_le(core.s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, core.s_abs(y))))
        return s_lor(c, s_land(s_isnan(x), s_isnan(y))) if equal_nan else c
    return ew(one, a, b, 'b')


def _conc(x):
    return not isinstance(x, Sym)


@reg()
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(NP.all(isclose(a, b, rtol, atol, equal_nan)))


@reg()
def array_equal(a, b, equal_nan=False):
    A, B = asarr(a), asarr(b)
    if A.shape != B.shape:
        return False
    return bool(NP.all(ew(lambda x, y: s_lor(s_eq(x, y), s_land(s_isnan(x), s_isnan(y)) if equal_nan else False),
                          A, B, 'b')))


# linear algebra ------------------------------------------------------------------------------------

@reg()
def dot(a, b, out=None):
    if not isinstance(a, (np.ndarray, list)) and not isinstance(b, (np.ndarray, list)):
        return s_mul(a, b)
    A, B = asarr(a), asarr(b)
    if A.ndim == 0 or B.ndim == 0:
        return A * B
    if not is_sym(A) and not is_sym(B):
        return from_real(np.dot(to_conc(A, ''), to_conc(B, '')))
    return _mm(A, B)


def _mm(A, B):
    a, b = plain(A), plain(B)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f'shapes {a.shape} and {b.shape} not aligned')
        return box(native(_ip(a, b)))
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    if b.ndim == 1:
        if a2.shape[-1] != b.shape[0]:
            raise ValueError(f'shapes {a.shape} and {b.shape} not aligned')
        o = np.empty(a2.shape[:-1], dtype=object)
        for k in np.ndindex(*a2.shape[:-1]):
            o[k] = native(_ip(a2[k], b))
        return mka(o, scan_kind(o.reshape(-1)))
    if a2.ndim != 2 or b.ndim != 2:
        raise core.Unsupported('dot of >2-d arrays')
    if a2.shape[1] != b.shape[0]:
        raise ValueError(f'shapes {a.shape} and {b.shape} not aligned')
    o = np.empty((a2.shape[0], b.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b.shape[1]):
            o[i, j] = native(_ip(a2[i], b[:, j]))
    if a.ndim == 1:
        o = o.reshape(-1)
    return mka(o, scan_kind(o.reshape(-1)))


def _ip(x, y):
    r = None
    for p, q in zip(x, y):
        if not isinstance(p, Sym) and p == 0 and isinstance(q, SymFloat) and q.n is False:
            continue
        if not isinstance(q, Sym) and q == 0 and isinstance(p, SymFloat) and p.n is False:
            continue
        t = s_mul(p, q)
        r = t if r is None else s_add(r, t)
    return 0.0 if r is None else r


@reg()
def matmul(a, b, **k):
    return dot(a, b)


@reg()
def inner(a, b):
    A, B = asarr(a), asarr(b)
    if A.ndim == 1 and B.ndim == 1:
        return dot(A, B)
    return dot(A, B.T)


@reg()
def vdot(a, b):
    return dot(asarr(a).reshape(-1), asarr(b).reshape(-1))


@reg()
def outer(a, b, out=None):
    return asarr(a).reshape(-1, 1) * asarr(b).reshape(1, -1)


@reg()
def trace(a, *r, **k):
    return NP.sum(NP.diag(asarr(a)))


@reg()
def einsum(spec, *ops, **kw):
    if not is_sym(list(ops)):
        return from_real(np.einsum(spec, *[to_conc(asarr(o), '') for o in ops]))
    spec = spec.replace(' ', '')
    ins, _, outp = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        allc = ''.join(ins)
        outp = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    arrs = [plain(asarr(o)) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        for c, d in zip(s, a.shape):
            dims[c] = d
    summed = [c for c in dims if c not in outp]
    o = np.empty(tuple(dims[c] for c in outp), dtype=object)
    for k in np.ndindex(*o.shape):
        env = dict(zip(outp, k))
        acc = None
        for k2 in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, k2))
            t = None
            for s, a in zip(ins, arrs):
                x = a[tuple(env[c] for c in s)]
                t = x if t is None else s_mul(t, x)
            acc = t if acc is None else s_add(acc, t)
        o[k] = 0.0 if acc is None else acc
    if o.ndim == 0:
        return box(native(o[()]))
    return mka(o, scan_kind(o.reshape(-1)))


def _det(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    if n == 2:
        return s_sub(s_mul(m[0][0], m[1][1]), s_mul(m[0][1], m[1][0]))
    r = 0.0
    for j in range(n):
        if not isinstance(m[0][j], Sym) and m[0][j] == 0:
            continue
        t = s_mul(m[0][j], _det([row[:j] + row[j + 1:] for row in m[1:]]))
        r = s_add(r, t) if j % 2 == 0 else s_sub(r, t)
    return r


def lin_det(a):
    A = asarr(a)
    if not is_sym(A):
        return box(float(np.linalg.det(to_conc(A, ''))))
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return _det([list(r) for r in plain(A)])


def lin_inv(a, *r, **kw):
    A = asarr(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if not is_sym(A):
        return from_real(np.linalg.inv(to_conc(A, '')))
    m = [list(r) for r in plain(A)]
    n = len(m)
    if n > 4:
        raise core.Unsupported('symbolic inverse > 4')
    d = _det(m)
    if bool(s_eq(d, 0)):
        raise np.linalg.LinAlgError('Singular matrix')
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            c = _det(sub)
            if (i + j) % 2:
                c = core.s_neg(c)
            o[j, i] = s_div(c, d)
    return mka(o, 'f')


def lin_solve(a, b, *r, **kw):
    A, B = asarr(a), asarr(b)
    if not is_sym(A):
        inv = from_real(np.linalg.inv(to_conc(A, '')))
        if not is_sym(B):
            return from_real(np.linalg.solve(to_conc(A, ''), to_conc(B, '')))
        return dot(inv, B)
    return dot(lin_inv(A), B)


linalg = types.SimpleNamespace(LinAlgError=np.linalg.LinAlgError, inv=lin_inv, det=lin_det, solve=lin_solve)


def lin_norm(x, ord=None, axis=None, keepdims=False):
    if not is_sym(x):
        return from_real(np.linalg.norm(to_conc(asarr(x), ''), ord, axis, keepdims))
    if ord not in (None, 2):
        raise core.Unsupported('norm ord')
    return NP.sqrt(NP.sum(NP.square(x), axis=axis, keepdims=keepdims))


linalg.norm = lin_norm


def lin_pinv(a, *r, **k):
    A = asarr(a)
    if not is_sym(A):
        return from_real(np.linalg.pinv(to_conc(A, ''), *r, **k))
    if A.shape[0] == A.shape[1]:
        return lin_inv(A)
    raise core.Unsupported('pinv')


linalg.pinv = lin_pinv


def lin_lstsq(a, b, *r, **k):
    A, B = asarr(a), asarr(b)
    if not is_sym([A, B]):
        return from_real(np.linalg.lstsq(to_conc(A, ''), to_conc(B, ''), rcond=None))
    x = lin_solve(dot(A.T, A), dot(A.T, B))
    return x, mk([], 'f', (0,)), A.shape[1], None


linalg.lstsq = lin_lstsq


class _LinAlg(types.ModuleType):
    def __getattr__(self, name):
        if name in linalg.__dict__:
            return linalg.__dict__[name]
        return fallback(getattr(np.linalg, name), 'linalg.' + name)


LINALG = _LinAlg('numpy.linalg')
NP.linalg = LINALG


# misc -------------------------------------------------------------------------------------------------

class vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f = pyfunc
        self.otypes = otypes
        self.excluded = excluded or set()

    def __call__(self, *args, **kw):
        if kw:
            names = list(kw)
            vals = [kw[n] for n in names]
            f = self.f
            na = len(args)
            return vectorize(lambda *a: f(*a[:na], **dict(zip(names, a[na:]))), self.otypes)(*args, *vals)
        if self.excluded:
            f = self.f
            ex = {i: a for i, a in enumerate(args) if i in self.excluded}
            rest = [a for i, a in enumerate(args) if i not in self.excluded]

            def g(*a):
                it = iter(a)
                return f(*[ex[i] if i in ex else next(it) for i in range(len(args))])
            return vectorize(g, self.otypes)(*rest)
        arrs = [asl(a) for a in args]
        if not arrs:
            raise ValueError('cannot call `vectorize` with no args')
        bs = np.broadcast_arrays(*arrs)
        sh = bs[0].shape
        if 0 in sh and self.otypes is None:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        res = []
        multi = False
        for k in np.ndindex(*sh):
            r = self.f(*[box(b[k]) for b in bs])
            multi = multi or isinstance(r, tuple)
            res.append(r)
        if multi:
            return tuple(self._wrap([r[i] for r in res], sh, i) for i in range(len(res[0])))
        return self._wrap(res, sh, 0)

    def _wrap(self, res, sh, i):
        vals = []
        for r in res:
            if isinstance(r, np.ndarray):
                if r.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                r = el(asarr(r))
            vals.append(native(r))
        if self.otypes is not None:
            k = kind_of_dtype(self.otypes[i] if not isinstance(self.otypes, str) else self.otypes[i])
        else:
            k = kind(vals[0])
        vals = [cast(v, k) for v in vals]
        a = mk(vals, k, sh)
        return a if sh != () else a


NP.vectorize = vectorize


@reg()
def apply_along_axis(f, axis, arr, *args, **kw):
    a = asarr(arr)
    q = np.moveaxis(plain(a), axis, -1)
    outs = {}
    for k in np.ndindex(*q.shape[:-1]):
        outs[k] = asarr(f(mka(q[k], a.sk), *args, **kw))
    first = next(iter(outs.values()))
    o = np.empty(q.shape[:-1] + first.shape, dtype=object)
    for k, v in outs.items():
        o[k] = plain(v) if v.ndim else el(v)
    if first.ndim:
        o = np.moveaxis(o, -1, axis)
    return mka(o, first.sk)


@reg()
def frompyfunc(f, nin, nout):
    u = np.frompyfunc(f, nin, nout)
    return lambda *a: out(u(*[asl(x) for x in a]))


@reg()
def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype=dtype)


@reg()
def ndenumerate(a):
    a = asarr(a)
    for k in np.ndindex(*a.shape):
        yield k, a[k]


@reg()
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = diff(x) if x is not None else dx
    return NP.sum((y[1:] + y[:-1]) * d) / 2.0


@reg()
def polyfit(x, y, deg, **k):
    return fallback(np.polyfit, 'polyfit')(x, y, deg, **k)


@reg()
def may_share_memory(a, b, *r):
    return np.may_share_memory(a, b)


@reg()
def isscalar(x):
    return isinstance(x, (Sym, SymStr)) or np.isscalar(x)


@reg()
def iterable(x):
    return not isinstance(x, Sym) and np.iterable(x)


@reg()
def cov(*a, **k):
    return fallback(np.cov, 'cov')(*a, **k)


class Random:
    """numpy.random: seeded draws are the real ones; draws from an unseeded generator are arbitrary."""

    def __init__(self):
        self.state = None
        self.count = 0
        self.hook = None

    def seed(self, s=None):
        if s is None:
            self.state = None
            return
        if isinstance(s, SymArray):
            s = to_conc(s, 'seed')
        elif isinstance(s, Sym):
            s = int(s)
        self.state = np.random.RandomState(s)

    def _draw(self, dist, shape):
        n = int(np.prod(shape)) if shape else 1
        vals = []
        for _ in range(n):
            self.count += 1
            e = eng()
            v = z3.Real(f'rand_{dist}_{self.count}')
            if dist == 'u':
                e.assume(z3.And(v >= 0, v < 1))
            vals.append(SymFloat(v))
        if not shape:
            return vals[0]
        return mk(vals, 'f', shape)

    def get_state(self, *a, **k):
        if self.state is None:
            raise Unsupported('state of an unseeded generator')
        return self.state.get_state(*a, **k)

    def set_state(self, s):
        self.state = np.random.RandomState()
        self.state.set_state(s)

    def rand(self, *shape):
        shape = tuple(int(x) for x in shape)
        if self.state is None:
            return self._draw('u', shape)
        r = self.state.rand(*shape)
        return from_real(np.asarray(r)) if shape else r

    def random(self, size=None):
        return self.rand(*(_shape(size) if size is not None else ()))
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randn(self, *shape):
        shape = tuple(int(x) for x in shape)
        if self.state is None:
            return self._draw('n', shape)
        r = self.state.randn(*shape)
        return from_real(np.asarray(r)) if shape else r

    def standard_normal(self, size=None):
        return self.randn(*(_shape(size) if size is not None else ()))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def RandomState(self, seed=None):
        r = Random()
        r.seed(seed)
        return r

    def default_rng(self, seed=None):
        r = Random()
        if seed is not None:
            r.gen = np.random.default_rng(int(seed) if isinstance(seed, Sym) else seed)
            return _Gen(r.gen)
        return r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if self.__dict__.get('state') is None:
            st = np.random.RandomState(0)
            e = eng()
            if e is not None:
                e.pins.append('unseeded numpy.random.' + name)
        else:
            st = self.state
        return fallback(getattr(st, name), 'random.' + name)


class _Gen:
    def __init__(self, g):
        self.g = g

    def __getattr__(self, name):
        return fallback(getattr(self.g, name), 'random.Generator.' + name)


class NumpyModule(types.ModuleType):
    """the object bound to `numpy` in the code under test"""

    def __init__(self):
        super().__init__('numpy')
        self.random = Random()
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = NP.__dict__.get(name)
        if f is not None:
            return f
        v = getattr(np, name)            # AttributeError as in real numpy
        if isinstance(v, np.ufunc):
            return fallback(v, name)
        if isinstance(v, type):
            return _TYPES.get(name, v)
        if callable(v):
            return fallback(v, name)
        return v


class _F64(metaclass=float_meta):
    def __new__(cls, x=0.0):
        return box(Float(x)) if not isinstance(x, (list, tuple, np.ndarray)) else array(x, dtype=float)


class _I64(metaclass=int_meta):
    def __new__(cls, x=0):
        return box(Int(x)) if not isinstance(x, (list, tuple, np.ndarray)) else array(x, dtype=int)


_TYPES = {}
_old_kod = kind_of_dtype


def kind_of_dtype(t):      # noqa: F811
    if t is _F64:
        return 'f'
    if t is _I64:
        return 'i'
    return _old_kod(t)


_TYPES.update({'float64': _F64, 'double': _F64, 'float_': _F64, 'float32': _F64, 'int64': _I64, 'int32': _I64,
               'int_': _I64, 'intp': _I64})
