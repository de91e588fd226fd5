"""Virtual file system: .mat files as dictionaries and binary files as functions of the offset.

mat_load / mat_read reproduce what scipy.io.loadmat and pymatreader.read_mat return for data written
with scipy.io.savemat (checked against the real libraries by tools/selftest.py).
"""
import copy

import numpy as np

from . import core, snp
from .snp import SymArray, mka, plain


class VFS:
    def __init__(self):
        self.mats = {}
        self.bins = {}
        self.writes = []
        self.guard = None           # called with ('r' or 'w', path) for every access: may raise

    def touch(self, mode, p):
        if self.guard is not None:
            self.guard(mode, p)

    def remove(self, p):
        p = self.norm(p)
        self.touch('w', p)
        if p not in self.mats:
            raise FileNotFoundError(2, 'No such file or directory', p)
        del self.mats[p]
        self.writes.append(p)

    def rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        self.touch('w', b)
        if a not in self.mats:
            raise FileNotFoundError(2, 'No such file or directory', a)
        self.mats[b] = self.mats.pop(a)
        self.writes += [a, b]

    def norm(self, p):
        import os
        from .sext import resolve
        return os.path.normpath(resolve(str(p)))

    def exists(self, p):
        p = self.norm(p)
        return p in self.mats or p in self.bins or any(q.startswith(p + '/') for q in list(self.mats) + list(self.bins))

    def isfile(self, p):
        p = self.norm(p)
        return p in self.mats or p in self.bins

    def save(self, p, d):
        p = self.norm(p)
        if not p.endswith('.mat'):
            p += '.mat'
        self.touch('w', p)
        self.mats[p] = {k: store(v) for k, v in d.items() if not str(k).startswith('_')}
        self.writes.append(p)

    def get(self, p):
        p = self.norm(p)
        if p not in self.mats and p + '.mat' in self.mats:
            p += '.mat'
        if p not in self.mats:
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.touch('r', p)
        return self.mats[p]

    def load(self, p):
        d = {'__header__': b'MATLAB 5.0 MAT-file', '__version__': '1.0', '__globals__': []}
        for k, v in self.get(p).items():
            d[k] = fresh(v)
        return d

    def read(self, p):
        d = {'__header__': b'MATLAB 5.0 MAT-file', '__version__': '1.0', '__globals__': []}
        for k, v in self.get(p).items():
            d[k] = squeeze(fresh(v))
        return d


def fresh(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    return copy.deepcopy(v)


def store(v):
    """what a later loadmat returns for a saved value"""
    if isinstance(v, dict):
        raise core.Unsupported('saving a struct')
    if isinstance(v, str):
        return np.array([v]) if v else np.array([], dtype='<U1')
    if v is None:
        raise core.Unsupported('saving None')
    if isinstance(v, (list, tuple)) and len(v) == 0:
        return snp.mk([], 'f', (0, 0))
    if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
        v = np.array(v)
    a = v if isinstance(v, np.ndarray) else snp.array(v)
    if not isinstance(a, SymArray):
        if a.dtype.kind == 'U':
            n = max((len(x) for x in a.reshape(-1)), default=0)
            return np.array([x.ljust(n) for x in a.reshape(-1)]).reshape(a.shape if a.ndim else (1,))
        if a.dtype == object:
            if a.ndim == 1:
                a = a.reshape(1, -1) if a.size else a.reshape(0, 0)
            o = np.empty(a.shape, dtype=object)
            for k in np.ndindex(*a.shape):
                o[k] = store(a[k])
            return o
        a = snp.from_real(a)
    k = 'i' if a.sk == 'b' else a.sk
    if k == 'o':
        o = np.empty(a.shape if a.ndim > 1 else (1, a.size) if a.size else (0, 0), dtype=object)
        for i, x in zip(np.ndindex(*o.shape), plain(a).reshape(-1)):
            o[i] = store(x)
        return o
    p = plain(snp.promote(a, k, force=True))
    if p.ndim == 0:
        p = p.reshape(1, 1)
    elif p.ndim == 1:
        p = p.reshape(1, -1) if p.size else p.reshape(0, 0)      # as scipy.io writes an empty vector
    return mka(p, k)


def squeeze(v):
    if isinstance(v, SymArray):
        if v.size == 1:
            return snp.native(snp.el(v.reshape(1)))
        if v.size == 0:
            return snp.mk([], v.sk, (0,))
        return v.squeeze()
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            r = [squeeze(x) for x in v.reshape(-1)]
            return r[0] if len(r) == 1 else r
        if v.size == 1:
            return str(v.reshape(-1)[0])
        return v.squeeze()
    return v


class VBytes:
    """n bytes of a virtual binary file, starting at a (possibly symbolic) offset"""

    def __init__(self, f, pos, n):
        self.f, self.pos, self.n = f, pos, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = i.indices(self.n)
            if s != 1:
                raise core.Unsupported('strided bytes')
            return VBytes(self.f, core.s_add(self.pos, a), max(b - a, 0))
        raise core.Unsupported('single byte of a virtual file')

    def words(self, size=2):
        if size != 2 or self.n % 2:
            raise core.Unsupported('word size')
        return [self.f.word(core.s_add(self.pos, 2 * i)) for i in range(self.n // 2)]


class VFile:
    """read-only binary file of 16-bit words: word(k) is given by the harness as a function of k"""

    def __init__(self, wordf, nbytes):
        self.wordf, self.nbytes, self.pos = wordf, nbytes, 0
        self.closed = False

    def word(self, pos):
        if bool(core.s_ne(core.s_mod(pos, 2), 0)):
            raise core.Unsupported('unaligned read')
        return self.wordf(core.s_floordiv(pos, 2))

    def seek(self, off, whence=0):
        if isinstance(off, np.ndarray):
            off = snp.el(off)
        off = snp.native(off)
        if core.kind(off) == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if whence == 1:
            off = core.s_add(self.pos, off)
        elif whence == 2:
            off = core.s_add(self.nbytes, off)
        if bool(core.s_lt(off, 0)):
            raise OSError(22, 'Invalid argument')
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or (not isinstance(n, core.Sym) and n < 0):
            raise core.Unsupported('reading a whole virtual file')
        n = int(n)
        if bool(core.s_gt(core.s_add(self.pos, n), self.nbytes)):
            left = core.s_sub(self.nbytes, self.pos)
            n = max(0, int(left))
        r = VBytes(self, self.pos, n)
        self.pos = core.s_add(self.pos, n)
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
