"""Property harness runtime: one harness runs both symbolically and concretely (replay)."""
import contextlib
import json
import math
import os
import random
import shutil
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, snp, vfs
from .core import Engine, PathAbort, Sym, SymBool, SymFloat, SymInt, Unsupported, zb
from .loader import Loader
from .snp import SymArray, asarr, mk, plain

MARGIN = Fraction(1, 1000)


class Stop(BaseException):
    """ends the current harness run (after a recorded failure)"""


class Stored(dict):
    """the contents of a stored file; a field the specification names and the file lacks is a violation"""

    def __init__(self, T, path, d):
        super().__init__(d)
        self.T, self.path = T, path

    def __missing__(self, k):
        self.T.check(False, f'the file has the field {k}', os.path.basename(self.path))
        raise Stop()


def stored(T, path, read):
    if not T.exists(path):
        T.check(False, 'the file is stored', os.path.basename(path))
        raise Stop()
    return Stored(T, path, read(path))


class Discard(BaseException):
    """concrete run: the input does not satisfy the harness's assumptions"""


def flat(x):
    """list of elements of a scalar/array/sequence"""
    if isinstance(x, SymArray):
        return list(plain(x).reshape(-1))
    if isinstance(x, np.ndarray):
        return [snp.native(v) for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        return [e for v in x for e in flat(v)]
    return [snp.native(x)]


# ------------------------------------------------------------------------------------------------
class BaseT:
    """operations shared by both modes; conditions are bool or SymBool"""

    def And(self, *cs):
        r = True
        for c in cs:
            for d in flat(c):
                r = core.s_land(r, d)
        return r

    def Or(self, *cs):
        r = False
        for c in cs:
            for d in flat(c):
                r = core.s_lor(r, d)
        return r

    def Not(self, c):
        return core.s_lnot(c)

    def implies(self, a, b):
        return core.s_lor(core.s_lnot(a), b)

    def iff(self, a, b):
        return core.s_eq(core.truth(a), core.truth(b))

    def ite(self, c, a, b):
        return core.s_ite(c, snp.native(a), snp.native(b))

    def isnan(self, x):
        return core.s_isnan(snp.native(x))

    def eq(self, a, b, tol=1e-9, rel=1e-9):
        """elementwise equality of scalars or equally shaped arrays; NaN equals NaN"""
        if np.shape(a) != np.shape(b):
            if not (np.size(a) == 1 and np.size(b) == 1):
                return False
        r = True
        for x, y in zip(flat(a), flat(b)):
            r = core.s_land(r, self.eq1(x, y, tol, rel))
        return r

    def near(self, a, b, tol):
        """elementwise |a - b| <= tol (both modes), for results computed with concrete floating-point coefficients"""
        if np.size(a) != np.size(b):
            return False
        r = True
        for x, y in zip(flat(a), flat(b)):
            d = core.s_sub(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else float(x) - float(y)
            c = core.s_land(core.s_le(d, tol), core.s_ge(d, -tol))
            r = core.s_land(r, c)
        return r

    def near1(self, a, b, tol):
        """as near, for two scalars either of which may be missing (missing equals missing only)"""
        na, nb = self.isnan(a), self.isnan(b)
        both = core.s_land(na, nb)
        if na is True or nb is True:
            return both
        return core.s_lor(both, core.s_land(core.s_land(core.s_lnot(na), core.s_lnot(nb)), self.near(a, b, tol)))

    def shape_is(self, a, shape):
        return tuple(np.shape(a)) == tuple(shape)

    def elems(self, x):
        return flat(x)


    @contextlib.contextmanager
    def faults(self, guard=None, at_print=None):
        """while active, guard(mode, path) is called for each file the code opens, at_print(n) for its n-th printed line"""
        n = [0]

        def say(*a, **k):
            n[0] += 1
            if at_print is not None:
                at_print(n[0] - 1)
        b = self.loader.builtins
        old = b['print']
        b['print'] = say
        try:
            with self._guarded(guard):
                yield n
        finally:
            b['print'] = old


class SymT(BaseT):
    sym = True

    def __init__(self, e, case, opts):
        self.e, self.case, self.opts = e, case, opts
        self.fs = vfs.VFS()
        self.root = '/vfs'
        self.loader = Loader(True, self.fs)
        self.np = self.loader.np
        self.observed = []
        self.checks = []            # (label, status)
        self.candidates = []
        self.reached = 0

    # inputs
    def real(self, name, lo=None, hi=None, nan=False, lo_open=False, hi_open=False):
        v = z3.Real(name)
        n = z3.Bool(name + '?nan') if nan else False
        self.e.inputs[name] = dict(kind='f', v=v, n=n, lo=lo, hi=hi)
        if not nan and lo is not None and lo > 0:
            self.e.posvars.add(v.get_id())
        cs = []
        if lo is not None:
            cs.append(v > core.rv(lo) if lo_open else v >= core.rv(lo))
        if hi is not None:
            cs.append(v < core.rv(hi) if hi_open else v <= core.rv(hi))
        for c in cs:
            self.e.assume(c)
        return SymFloat(v, n)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.e.inputs[name] = dict(kind='i', v=v, n=False, lo=lo, hi=hi)
        self.e.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v) if lo != hi else lo

    def bool(self, name):
        v = z3.Bool(name)
        self.e.inputs[name] = dict(kind='b', v=v, n=False)
        return SymBool(v)

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def array(self, name, shape, lo=None, hi=None, nan=False):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return mk([self.real(f'{name}{list(k)}', lo, hi, nan) for k in np.ndindex(*shape)], 'f', shape)

    def digits(self, name, n, first_nonzero=True):
        """an integer of exactly n decimal digits whose text is known symbolically"""
        ds = []
        for i in range(n):
            d = z3.Int(f'{name}.d{i}')
            lo = 1 if i == 0 and first_nonzero else 0
            self.e.inputs[f'{name}.d{i}'] = dict(kind='i', v=d, n=False, lo=lo, hi=9)
            self.e.assume(z3.And(d >= lo, d <= 9))
            ds.append(d)
        v = z3.IntVal(0)
        for d in ds:
            v = v * 10 + d
        v = z3.simplify(v)
        if not hasattr(self.e, 'digitmap'):
            self.e.digitmap = {}
        x = SymInt(v)
        self.e.digitmap[v.get_id()] = ds
        self.e.keep.append(v)
        return x, [SymInt(d) for d in ds]

    def arr(self, rows, kind=None):
        a = snp.array(rows)
        if kind and isinstance(a, SymArray) and a.sk != kind:
            a = snp.promote(a, kind)
        return a

    # code under test
    @property
    def plots(self):
        return self.loader.plots

    @property
    def gsw(self):
        return self.loader.gsw

    def mod(self, name):
        return self.loader.get('pyowc.' + name)

    def override(self, mod, name, value):
        return self.loader.overriding('pyowc.' + mod, name, value)

    def new_session(self):
        """a fresh interpreter as far as the code under test is concerned (same files on disk)"""
        self.loader = Loader(True, self.fs, self.np)

    def save(self, path, d):
        self.fs.save(path, d)

    def load(self, path):
        return stored(self, path, self.fs.load)

    def read(self, path):
        return self.fs.read(path)

    def remove(self, path):
        self.fs.remove(path)

    def exists(self, path):
        return self.fs.exists(path)

    def snapshot(self):
        """all .mat files of the virtual disk"""
        return {p: {k: vfs.fresh(v) for k, v in d.items()} for p, d in self.fs.mats.items()}

    @contextlib.contextmanager
    def _guarded(self, guard):
        self.fs.guard = guard
        try:
            yield
        finally:
            self.fs.guard = None

    def binfile(self, path, wordf, nwords):
        self.fs.bins[self.fs.norm(path)] = (wordf, 2 * nwords)

    def perturb_rng(self, seed, drawn=0):
        self.np.random.state = np.random.RandomState(seed)
        self.np.random.state.rand(drawn)

    # control
    def assume(self, c):
        c = self.And(c) if not isinstance(c, (bool, SymBool)) else c
        if c is True:
            return
        if c is False:
            self.e.abort('assumption')
        self.e.assume(zb(c))
        r, m = self.e.sat()
        if r == z3.unsat:
            self.e.abort('assumption')
        if r == z3.sat:
            self.e.model = m

    def split(self, c):
        return bool(c)

    def eq1(self, a, b, tol, rel):
        if isinstance(a, (str,)) or isinstance(b, (str,)):
            return a == b
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if a is None or b is None:
                return a is b
            a, b = float(a), float(b)
            if a != a or b != b:
                return a != a and b != b
            return a == b or abs(a - b) <= tol + rel * max(abs(a), abs(b))
        if core.isinf(a) or core.isinf(b):
            return core.s_eq(a, b)
        (x, n), (y, m) = core.R(a), core.R(b)
        zn = z3.BoolVal(n) if isinstance(n, bool) else n
        zm = z3.BoolVal(m) if isinstance(m, bool) else m
        d = z3.simplify(x - y, som=True)
        if n is False and m is False:
            c = d == 0
            s = z3.Or(d > core.rv(MARGIN), d < -core.rv(MARGIN))
        else:
            c = z3.If(zn, zm, z3.And(z3.Not(zm), d == 0))
            s = z3.Or(z3.Xor(zn, zm), z3.And(z3.Not(zn), z3.Or(d > core.rv(MARGIN), d < -core.rv(MARGIN))))
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SymBool(c, s)

    def observe(self, label, x):
        self.observed.append((label, flat(x), tuple(np.shape(x))))

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Unsupported:
            raise
        except Exception as ex:
            self._failed_exc(ex, getattr(fn, '__name__', '?'))

    def attempt(self, fn, *a, **k):
        try:
            return True, fn(*a, **k)
        except Unsupported:
            raise
        except Exception as ex:
            self.last_exc = ex
            return False, ex

    def _failed_exc(self, ex, name):
        label = f'no-exception:{name}:{type(ex).__name__}'
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exception(ex)
        self.check(False, label, note=str(ex)[:200])
        raise Stop()

    def fail(self, label, note=''):
        self.check(False, label, note=note)

    def check(self, cond, label, note=''):
        self.reached += 1
        e = self.e
        if not isinstance(cond, (bool, SymBool)):
            cond = self.And(cond)
        if cond is True or (isinstance(cond, SymBool) and z3.is_true(z3.simplify(cond.b))):
            e._st('checks_trivial')
            e._st('queries')
            e._st('discharged')
            return True
        e._st('queries')
        t = time.time()
        neg = z3.BoolVal(True) if cond is False else z3.simplify(z3.Not(cond.b))
        r, m, hard = decide(e, [neg], e.check_timeout)
        e.stats['check_s'] = e.stats.get('check_s', 0.0) + time.time() - t
        if r == z3.unsat:
            e._st('discharged')
            if cond is not False:
                # keep the proved fact: it may help later queries
                pass
            return True
        if r == z3.unknown:
            e._st('unknown_checks')
            self.checks.append((label, 'unknown'))
            return None
        self.checks.append((label, 'sat'))
        extra = []
        if isinstance(cond, SymBool) and cond.sneg is not None:
            extra.append(cond.sneg)
        self.candidates.append((label, note, candidate_inputs(e, neg, extra, m, hard, self.opts)))
        if cond is not False:
            e.assume(cond.b)
        return False


# ------------------------------------------------------------------------------------------------
def decide(e, extra, timeout):
    """satisfiability of pc + extra, strengthening with lazy axioms when needed.
    returns (result, model, constraints used)"""
    e.tick()
    extra = [z3.simplify(core.poly.norm(c, core.nonlinear)) if core.nonlinear(c) else c for c in extra]
    r, m = _solve(e, [], extra, timeout)
    used = []
    if r != z3.unsat and e.lazy:
        used = list(e.lazy)
        r, m = _solve(e, used, extra, timeout)
    return r, m, used


def _solve(e, axioms, extra, timeout):
    e._st('solver_calls')
    ints = any(i['kind'] == 'i' for i in e.inputs.values())
    if not ints and (e.hard or any(core.nonlinear(c) for c in extra)):
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', min(timeout, 4000))
        s.add(*e.pc, *axioms, *extra)
        r = s.check()
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None)
    s = z3.Solver()
    s.set('timeout', min(timeout, 4000))
    for c in e.pc:
        s.add(c)
    for c in axioms:
        s.add(c)
    for c in extra:
        s.add(c)
    r = s.check()
    if r != z3.unknown:
        return r, (s.model() if r == z3.sat else None)
    tries = [] if ints else ['qfnra-nlsat']
    tries += ['smt']
    for t in tries:
        try:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', t).solver() \
                if t != 'smt' else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            s2.set('timeout', timeout)
            s2.add(*e.pc, *axioms, *extra)
            e._st('solver_calls')
            r = s2.check()
            if r != z3.unknown:
                return r, (s2.model() if r == z3.sat else None)
        except z3.Z3Exception:
            continue
    return z3.unknown, None


def _val(m, i):
    if i['kind'] == 'b':
        return z3.is_true(m.eval(i['v'], model_completion=True))
    if i['kind'] == 'i':
        return int(core.z3num(m.eval(i['v'], model_completion=True)))
    if i['n'] is not False and z3.is_true(m.eval(i['n'], model_completion=True)):
        return math.nan
    v = m.eval(i['v'], model_completion=True)
    q = core.z3num(v)
    if q is None:
        q = core.z3num(v.approx(15)) if hasattr(v, 'approx') else Fraction(0)
    return q


def model_inputs(e, m):
    return {n: _val(m, i) for n, i in e.inputs.items()}


def to_floats(vals):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}


def _fix(e, vals):
    cs = []
    for n, i in e.inputs.items():
        v = vals[n]
        if i['kind'] == 'b':
            cs.append(i['v'] if v else z3.Not(i['v']))
        elif i['kind'] == 'i':
            cs.append(i['v'] == v)
        elif isinstance(v, float) and v != v:
            cs.append(i['n'])
        else:
            if i['n'] is not False:
                cs.append(z3.Not(i['n']))
            cs.append(i['v'] == z3.RealVal(v))
    return cs


def _round(vals, den):
    out = {}
    for k, v in vals.items():
        out[k] = Fraction(round(v * den), den) if isinstance(v, Fraction) else v
    return out


def _quick(e, cs, timeout=1500):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*e.pc, *cs)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def nice_inputs(e, m, cs):
    """inputs from model m, preferring few-digit values that still satisfy cs (+pc)"""
    vals = model_inputs(e, m)
    for den in (1, 8, 128, 4096):
        rv = _round(vals, den)
        r, _ = _quick(e, cs + _fix(e, rv), 800)
        if r == z3.sat:
            return to_floats(rv)
    return to_floats(vals)


def candidate_inputs(e, neg, extra, m, axioms, opts):
    """several concrete inputs that (according to the solver) break the property on this path"""
    res = []
    cs = [neg] + list(axioms)
    if extra:
        r, m2, _ = decide(e, [neg] + extra, 4000)
        if r == z3.sat:
            res.append(nice_inputs(e, m2, cs + extra))
            # a generic counterexample is less likely to be an artefact than a corner one
    res.append(nice_inputs(e, m, cs))
    rng = random.Random(opts.get('seed', 1))
    t0 = time.time()
    for _ in range(opts.get('alternatives', 4)):
        if time.time() - t0 > opts.get('alt_time', 10):
            break
        s = z3.Solver()
        s.set('timeout', 700)
        s.add(*e.pc, *cs)
        mm = None
        names = list(e.inputs)
        rng.shuffle(names)
        for n in names:
            i = e.inputs[n]
            if i['kind'] == 'b' or time.time() - t0 > opts.get('alt_time', 10):
                continue
            lo = i['lo'] if i['lo'] is not None else -10
            hi = i['hi'] if i['hi'] is not None else 10
            s.push()
            if i['kind'] == 'i':
                s.add(i['v'] == rng.randint(lo, hi))
            else:
                s.add(i['v'] == z3.RealVal(Fraction(round(rng.uniform(float(lo), float(hi)) * 64), 64)))
                if i['n'] is not False:
                    s.add(z3.Not(i['n']))
            if s.check() == z3.sat:
                mm = s.model()
            else:
                s.pop()
        if mm is not None:
            res.append(to_floats(model_inputs(e, mm)))
    out = []
    for v in res:
        if v not in out:
            out.append(v)
    return out


# ------------------------------------------------------------------------------------------------
class ConcT(BaseT):
    """concrete run of the same harness on the real code with the real libraries"""
    sym = False

    def __init__(self, case, values):
        self.case, self.values = case, values
        self.dir = None
        self.loader = Loader(False)
        self.np = np
        self.failed = []
        self.observed = []
        self.reached = 0
        self.missing = []

    @property
    def root(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='symx_')
        return self.dir

    def cleanup(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def real(self, name, lo=None, hi=None, nan=False, lo_open=False, hi_open=False):
        v = self._get(name, lo if lo is not None else 0.0)
        return float(v)

    def int(self, name, lo, hi):
        return int(self._get(name, lo)) if lo != hi else lo

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def array(self, name, shape, lo=None, hi=None, nan=False):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return np.array([self.real(f'{name}{list(k)}', lo, hi, nan) for k in np.ndindex(*shape)], dtype=float).reshape(
            shape)

    def digits(self, name, n, first_nonzero=True):
        ds = [int(self._get(f'{name}.d{i}', 1)) for i in range(n)]
        return int(''.join(map(str, ds))), ds

    def arr(self, rows, kind=None):
        a = np.array(rows)
        if kind:
            a = a.astype({'f': float, 'i': int, 'b': bool, 'o': object}[kind])
        return a

    @property
    def plots(self):
        return self.loader.plots

    @property
    def gsw(self):
        import gsw
        return gsw

    def mod(self, name):
        return self.loader.get('pyowc.' + name)

    def override(self, mod, name, value):
        return self.loader.overriding('pyowc.' + mod, name, value)

    def new_session(self):
        self.loader = Loader(False)

    def save(self, path, d):
        from scipy.io import savemat
        os.makedirs(os.path.dirname(path), exist_ok=True)
        savemat(path, d)

    def load(self, path):
        from scipy.io import loadmat
        return stored(self, path, loadmat)

    def read(self, path):
        from pymatreader import read_mat
        return read_mat(path)

    def remove(self, path):
        os.remove(path)

    def exists(self, path):
        return os.path.exists(path)

    def snapshot(self):
        out = {}
        for d, _, names in os.walk(self.root):
            for n in names:
                if n.endswith('.mat'):
                    out[os.path.join(d, n)] = {k: v for k, v in self.load(os.path.join(d, n)).items() if not k.startswith('__')}
        return out

    @contextlib.contextmanager
    def _guarded(self, guard):
        import builtins
        import io
        real, root, b = builtins.open, self.root, self.loader.builtins

        def opened(file, mode='r', *a, **k):
            if guard is not None and isinstance(file, (str, os.PathLike)) and str(file).startswith(root):
                guard('w' if set(mode) & set('wax+') else 'r', os.path.normpath(str(file)))
            return real(file, mode, *a, **k)
        mine = b['open']
        builtins.open = io.open = b['open'] = opened
        try:
            yield
        finally:
            builtins.open = io.open = real
            b['open'] = mine

    def binfile(self, path, wordf, nwords):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        np.asarray(wordf(np.arange(nwords)), dtype='<i2').tofile(path)

    def perturb_rng(self, seed, drawn=0):
        np.random.seed(seed)
        np.random.rand(drawn)

    def assume(self, c):
        c = self.And(c)
        if not c:
            raise Discard()

    def split(self, c):
        return bool(c)

    def eq1(self, a, b, tol, rel):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= tol + rel * max(abs(a), abs(b))

    def observe(self, label, x):
        self.observed.append((label, flat(x), tuple(np.shape(x))))

    def call(self, fn, *a, **k):
        try:
            with np.errstate(all='ignore'):
                return fn(*a, **k)
        except Exception as ex:
            name = getattr(fn, '__name__', '?')
            self.failed.append((f'no-exception:{name}:{type(ex).__name__}', str(ex)[:200]))
            raise Stop()

    def attempt(self, fn, *a, **k):
        try:
            with np.errstate(all='ignore'):
                return True, fn(*a, **k)
        except Exception as ex:
            self.last_exc = ex
            return False, ex

    def fail(self, label, note=''):
        self.check(False, label, note)

    def check(self, cond, label, note=''):
        self.reached += 1
        if not self.And(cond):
            self.failed.append((label, note))
            return False
        return True


def run_concrete(harness, case, values):
    """returns (status, failed, T): status in ok/fail/discard/error"""
    import warnings
    T = ConcT(case, values)
    old = Engine.cur
    Engine.cur = None
    st = np.random.get_state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                harness.run(T, case)
            except Stop:
                pass
            except Discard:
                return 'discard', [], T
            except Exception as ex:
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                if T.failed:           # the property is already violated: what follows need not make sense
                    return 'fail', T.failed, T
                return 'error', [('harness-error', repr(ex)[:200])], T
    finally:
        Engine.cur = old
        np.random.set_state(st)
        T.cleanup()
    return ('fail' if T.failed else 'ok'), T.failed, T


# ------------------------------------------------------------------------------------------------
# numeric evaluation of symbolic terms (path-model validation)

_UFS = {}


def _uf_eval(name, args):
    f = _UFS.get(name)
    if f is None:
        if name.startswith('gsw.'):
            import gsw
            f = getattr(gsw, name[4:])
        else:
            f = {'sqrt': lambda x: math.sqrt(max(x, 0.0)), 'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos,
                 'tan': np.tan, 'arctan': np.arctan, 'arcsin': np.arcsin, 'arccos': np.arccos}.get(name)
        if f is None:
            raise KeyError(name)
        _UFS[name] = f
    return float(f(*args))


class Eval:
    def __init__(self, e, values):
        self.env = {}
        for n, i in e.inputs.items():
            v = values[n]
            self.env[n] = 0.0 if isinstance(v, float) and v != v else v
            if i['n'] is not False:
                self.env[n + '?nan'] = isinstance(v, float) and v != v
        self.uf = {}
        for name, lst in e.ufs.items():
            for _, args, r in lst:
                self.uf[r.decl().name()] = (name, args)
        self.memo = {}
        self.keep = []

    def elem(self, x):
        if not isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return bool(self(x.b))
        if isinstance(x, SymFloat) and x.n is not False and (x.n is True or self(x.n)):
            return math.nan
        return self(x.v)

    def __call__(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._ev(t)
        self.memo[k] = r
        self.keep.append(t)
        return r

    def _ev(self, t):
        q = core.z3num(t)
        if q is not None:
            return float(q) if isinstance(q, Fraction) else q
        d = t.decl()
        kd = d.kind()
        if kd == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n in self.env:
                return self.env[n]
            if n in self.uf:
                name, args = self.uf[n]
                return _uf_eval(name, [float(self(a)) for a in args])
            raise KeyError(n)
        if kd == z3.Z3_OP_ITE:
            return self(t.arg(1)) if self(t.arg(0)) else self(t.arg(2))
        if kd == z3.Z3_OP_AND:
            return all(self(c) for c in t.children())
        if kd == z3.Z3_OP_OR:
            return any(self(c) for c in t.children())
        ch = [self(c) for c in t.children()]
        if kd == z3.Z3_OP_ADD:
            return sum(ch[1:], ch[0])
        if kd == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -ch[0]
        if kd == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        if kd == z3.Z3_OP_DIV:
            return float(ch[0]) / float(ch[1]) if ch[1] else math.nan
        if kd in (z3.Z3_OP_IDIV,):
            return ch[0] // ch[1]
        if kd in (z3.Z3_OP_MOD,):
            return ch[0] % ch[1]
        if kd == z3.Z3_OP_TO_REAL:
            return ch[0]
        if kd == z3.Z3_OP_TO_INT:
            return math.floor(ch[0] + 1e-9) if abs(ch[0] - round(ch[0])) < 1e-9 else math.floor(ch[0])
        if kd == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        if kd == z3.Z3_OP_NOT:
            return not ch[0]
        if kd == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if kd == z3.Z3_OP_DISTINCT:
            return ch[0] != ch[1]
        if kd == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if kd == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if kd == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if kd == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if kd == z3.Z3_OP_XOR:
            return bool(ch[0]) != bool(ch[1])
        if kd == z3.Z3_OP_IMPLIES:
            return (not ch[0]) or ch[1]
        if kd == z3.Z3_OP_TRUE:
            return True
        if kd == z3.Z3_OP_FALSE:
            return False
        raise KeyError(str(d))


def generic_model(e, rng, loose=False):
    """a model of the path condition away from corner cases where possible"""
    s = z3.Solver()
    s.set('timeout', 400)
    s.add(*e.pc)
    if e.lazy:
        s.add(*e.lazy)
    if s.check() != z3.sat:
        # a replay needs no exact model of the path
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*[c for c in e.pc if not core.nonlinear(c)])
        if not loose or s.check() != z3.sat:
            return None
    m = s.model()
    t0 = time.time()
    names = list(e.inputs)
    rng.shuffle(names)
    for n in names[:24]:
        if time.time() - t0 > 1.5:
            break
        i = e.inputs[n]
        if i['kind'] != 'f':
            continue
        lo = float(i['lo']) if i['lo'] is not None else -10.0
        hi = float(i['hi']) if i['hi'] is not None else 10.0
        for _ in range(2):
            s.push()
            s.add(i['v'] == z3.RealVal(Fraction(round(rng.uniform(lo, hi) * 64), 64)))
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
    return m


def validate(harness, case, e, T, rng):
    """run the real code on a model of this path and compare the observed values"""
    m = generic_model(e, rng)
    if m is None:
        return None, 'no model'
    vals = nice_inputs(e, m, [])
    st, failed, C = run_concrete(harness, case, vals)
    if st in ('discard', 'error'):
        return None, st + ' ' + str(failed)
    if len(C.observed) != len(T.observed):
        return False, dict(inputs=vals, why=f'{len(C.observed)} vs {len(T.observed)} observations {failed}')
    ev = Eval(e, vals)
    for (l1, xs, sh1), (l2, ys, sh2) in zip(T.observed, C.observed):
        if l1 != l2 or len(xs) != len(ys):
            return False, dict(inputs=vals, why=f'{l1}{sh1} vs {l2}{sh2}')
        for k, (x, y) in enumerate(zip(xs, ys)):
            try:
                v = ev.elem(x)
            except (KeyError, OverflowError, ZeroDivisionError):
                return None, 'not evaluable'
            if isinstance(v, str) or isinstance(y, str) or y is None or v is None:
                if v != y:
                    return False, dict(inputs=vals, why=f'{l1}[{k}]: {v} vs {y}')
                continue
            v, y = float(v), float(y)
            if (v != v) != (y != y) or (v == v and abs(v - y) > 1e-6 * max(1, abs(v), abs(y))):
                return False, dict(inputs=vals, why=f'{l1}[{k}]: encoded {v!r} real {y!r}')
    if failed:
        return False, dict(inputs=vals, why=f'concrete run fails {failed}')
    return True, vals


def path_replays(harness, case, e, rng, n=3):
    """models of a path whose encoding is incomplete, replayed on the real code: a violation is
    reported only when two different models fail"""
    bad, tried = [], 0
    for _ in range(n):
        m = generic_model(e, rng, loose=True)
        if m is None:
            break
        vals = to_floats(model_inputs(e, m))
        tried += 1
        st, failed, _ = run_concrete(harness, case, vals)
        if st == 'fail' and all(vals != b['inputs'] for b in bad):
            bad.append(dict(case=case, label=failed[0][0], solver_label='replay of a path model', note=failed[0][1],
                            inputs=vals, all_failed=failed[:5]))
            if len(bad) == 2 or not e.inputs:
                return bad[:1], tried
        elif st not in ('fail', 'ok', 'pass') and not bad:
            break
    return [], tried


# ------------------------------------------------------------------------------------------------
def run_path(harness, case, prefix, opts, validate_it, rng, deadline):
    """execute one path; returns a dictionary"""
    stats = {}
    e = Engine(prefix, fork_timeout=opts.get('fork_timeout', 1500), check_timeout=opts.get('check_timeout', 20000),
               deadline=deadline, stats=stats)
    Engine.cur = e
    res = dict(status='ok', pending=[], stats=stats, violations=[], unrepro=[], notes=[], reached=0, validated=None)
    T = None
    try:
        T = SymT(e, case, opts)
        try:
            harness.run(T, case)
        except Stop:
            pass
        except PathAbort:
            pass
        except Unsupported as ex:
            res['status'] = 'unsupported'
            res['notes'].append('unsupported: ' + str(ex)[:160])
        except RecursionError:
            res['status'] = 'unsupported'
            res['notes'].append('recursion')
            os.environ.get('SYMX_DEBUG') and traceback.print_exc(limit=-6)
        except z3.Z3Exception as ex:
            res['status'] = 'unsupported'
            res['notes'].append('z3: ' + str(ex)[:160])
        except Exception as ex:
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            res['status'] = 'unsupported'
            res['notes'].append('harness: ' + repr(ex)[:160])
        if e.aborted:
            res['status'] = 'timeout' if e.timeout else 'aborted:' + str(getattr(e, 'abort_why', ''))
        elif e.taint and res['status'] == 'ok':
            res['status'] = 'tainted'
            res['notes'].append('not represented: ' + '; '.join(sorted(set(e.taint)))[:200])
        if e.pins:
            res['notes'].append('pinned: ' + '; '.join(sorted(set(e.pins)))[:200])
            stats['pinned_paths'] = 1
        res['pending'] = e.pending
        res['reached'] = T.reached
        seen = set()
        for label, note, cands in T.candidates:
            ok = False
            for vals in cands:
                st, failed, C = run_concrete(harness, case, vals)
                stats['replays'] = stats.get('replays', 0) + 1
                if st == 'fail':
                    res['violations'].append(dict(case=case, label=failed[0][0], solver_label=label,
                                                  note=failed[0][1] or note, inputs=vals, all_failed=failed[:5]))
                    ok = True
                    break
            if not ok and label not in seen:
                seen.add(label)
                res['unrepro'].append(dict(case=case, label=label, note=note, inputs=cands[0] if cands else None))
        for label, st in T.checks:
            if st == 'unknown':
                res['notes'].append('unknown: ' + label)
        if res['status'] == 'ok' and validate_it and not T.candidates:
            res['validated'] = validate(harness, case, e, T, rng)
        bad = res['status'] in ('unsupported', 'tainted') or any(st == 'unknown' for _, st in T.checks) or e.aborted and e.inputs or (
            res['validated'] is not None and res['validated'][0] is False and
            "'concrete run fails" in str(res['validated'][1]) or 'observations' in str(res['validated'] or ''))
        if bad and opts.get('fallbacks', 6) > opts.get('fallbacks_done', 0):
            opts['fallbacks_done'] = opts.get('fallbacks_done', 0) + 1
            vs, tried = path_replays(harness, case, e, rng)
            stats['path_model_replays'] = tried
            res['violations'] += vs
        if res['status'] == 'ok' and e.inputs:
            res['ninputs'] = len(e.inputs)
    finally:
        Engine.cur = None
    return res


def jsonable(x):
    if isinstance(x, float) and x != x:
        return 'nan'
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def unjson(x):
    if x == 'nan':
        return math.nan
    if isinstance(x, dict):
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def dump(path, obj):
    with open(path, 'w') as f:
        json.dump(jsonable(obj), f, indent=1, sort_keys=True)
        f.write('\n')
