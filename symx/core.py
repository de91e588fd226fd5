"""Symbolic execution core: path exploration engine and symbolic scalar values.

Reals model Python/numpy floating-point numbers (rounding is outside the claims); every symbolic
float carries a separate "is NaN" flag.  Infinities exist only as concrete values.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly


class PathAbort(BaseException):
    """The current path is infeasible or cut; unwinds to the explorer."""


class Unsupported(Exception):
    """The code did something the engine cannot represent."""


# ----------------------------------------------------------------------------------------------
# numbers

_FR = {}


def simplest(x):
    """The simplest rational within a few ulps of the float x (real-number reading of constants)."""
    if x in _FR:
        return _FR[x]
    f = Fraction(x)
    if f.denominator == 1 or x == 0:
        r = f
    else:
        tol = abs(f) * Fraction(1, 2 ** 50)
        lo, hi = f - tol, f + tol
        r = _between(lo, hi)
    if len(_FR) < 20000:
        _FR[x] = r
    return r


def _between(lo, hi):
    if lo < 0 < hi:
        return Fraction(0)
    if hi < 0:
        return -_between(-hi, -lo)
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _between(1 / (hi - fl), 1 / (lo - fl))


_RV = {}


def rv(x):
    """z3 real literal of a concrete finite number."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (float, np.floating)):
        x = simplest(float(x))
    elif isinstance(x, (int, np.integer)):
        x = Fraction(int(x))
    v = _RV.get(x)
    if v is None:
        v = z3.RealVal(x)
        if len(_RV) < 50000:
            _RV[x] = v
    return v


def z3num(v):
    """Fraction/int of a z3 numeral, else None."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


# ----------------------------------------------------------------------------------------------
# engine

_NONLIN = {}


def nonlinear(t):
    """does a term contain a product or quotient of non-numerals?"""
    todo = [t]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in _NONLIN:
            todo.pop()
            continue
        ch = x.children()
        rest = [c for c in ch if c.get_id() not in _NONLIN]
        if rest:
            todo += rest
            continue
        d = x.decl().kind() if z3.is_app(x) else None
        r = any(_NONLIN[c.get_id()][1] for c in ch)
        if d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
            r = True
        elif d in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(ch[1]):
            r = True
        _NONLIN[k] = (x, r)
        todo.pop()
    return _NONLIN[t.get_id()][1]


def rational(m):
    """a model with its irrational values approximated (it only suggests which way to go first)"""
    if not any(d.arity() == 0 and z3.is_algebraic_value(m[d]) for d in m.decls()):
        return m
    s = z3.Solver()
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            s.add(d() == (v.approx(25) if z3.is_algebraic_value(v) else v))
    return s.model() if s.check() == z3.sat else m


class Engine:
    cur = None

    def __init__(self, prefix=(), fork_timeout=1500, check_timeout=20000, deadline=None, stats=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.log = []               # decisions taken
        self.pending = []           # alternative prefixes discovered
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', fork_timeout)
        self.lin = z3.Solver()
        self.lin.set('timeout', 500)
        self.fork_timeout = fork_timeout
        self.check_timeout = check_timeout
        self.known = {}
        self.sqrts, self.roots, self.pending_root = set(), [], None
        self.posvars = set()                 # inputs known to be positive
        self.model = None
        self.inputs = {}            # name -> dict(kind, v, n, ...)
        self.aborted = False
        self.taint = []             # reasons for which this path is not represented faithfully
        self.pins = []              # concretisations (loss of coverage, not of soundness of alarms)
        self.ufs = {}               # name -> list of (argkey, arg exprs, result)
        self.lazy = []              # lazily used axioms
        self.fresh = 0
        self.deadline = deadline
        self.stats = stats if stats is not None else {}
        self.keep = []
        self.nondet = {}

    # -- statistics
    def _st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def abort(self, why=''):
        self.aborted = True
        self.abort_why = why
        raise PathAbort(why)

    def tick(self):
        if self.aborted:
            raise PathAbort('sticky')
        if self.deadline and time.time() > self.deadline:
            self.timeout = True
            self.abort('deadline')

    timeout = False

    hard = False

    def add(self, c):
        self.pc.append(c)
        if nonlinear(c):
            self.hard = True
        else:
            self.lin.add(c)
        self.solver.add(c)

    def assume(self, c):
        """Assume a constraint on the path (inputs/definitions)."""
        c = z3.simplify(c)
        if nonlinear(c):
            c = z3.simplify(poly.norm(c, nonlinear))
        if z3.is_true(c):
            return
        self.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def sat(self, *extra):
        self.tick()
        t = time.time()
        if self.hard and not any(nonlinear(c) for c in extra):
            if self.lin.check(*extra) == z3.unsat:         # the linear part alone rules it out
                self._st('solver_calls')
                self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
                return z3.unsat, None
        if any(nonlinear(c) for c in extra) or self.hard:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', self.fork_timeout)
            for e in self.pc:
                s.add(e)
            for e in extra:
                s.add(e)
            if self._pure_real(extra):
                r = s.check()
                self._st('solver_calls')
                if r != z3.unknown:
                    self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
                    return r, rational(s.model()) if r == z3.sat else None
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self._st('solver_calls')
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver() if self._pure_real(extra) else z3.Solver()
            s.set('timeout', self.fork_timeout)
            for e in self.pc:
                s.add(e)
            for e in extra:
                s.add(e)
            r = s.check()
            m = rational(s.model()) if r == z3.sat else None
            self._st('solver_calls')
            if r == z3.unknown:
                self._st('unknown_forks')
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
        return r, m

    def _pure_real(self, extra):
        return not any(i['kind'] in ('i',) for i in self.inputs.values())

    def get_model(self):
        if self.model is None:
            r, m = self.sat()
            if r == z3.unsat:
                self.abort('infeasible')
            if r == z3.unknown:
                return None
            self.model = m
        return self.model

    def fork(self, cond):
        """Decide a symbolic condition; explores both feasible outcomes over the exploration."""
        self.tick()
        c = z3.simplify(cond)
        if nonlinear(c):
            c = z3.simplify(poly.norm(c, nonlinear))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[1]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'b':
                self.taint.append('nondeterministic re-execution')
                self.abort('replay mismatch')
            self.log.append(d)
            self._take(c, d[1])
            return d[1]
        m = self.get_model()
        self._st('forks')
        if m is not None:
            side = z3.is_true(m.eval(c, model_completion=True))
            other = z3.Not(c) if side else c
            r, _ = self.sat(other)
            if r != z3.unsat:
                self.pending.append(self.log + [('b', not side)])
            self.log.append(('b', side))
            self._take(c, side, keep_model=True)
            return side
        r1, _ = self.sat(c)
        r2, _ = self.sat(z3.Not(c))
        if r1 == z3.unsat and r2 == z3.unsat:
            self.abort('infeasible')
        side = r1 != z3.unsat
        if side and r2 != z3.unsat:
            self.pending.append(self.log + [('b', False)])
        self.log.append(('b', side))
        self._take(c, side)
        return side

    def _take(self, c, side, keep_model=False):
        lit = c if side else z3.simplify(z3.Not(c))
        self.known[c.get_id()] = (c, side)
        nc = z3.simplify(z3.Not(c))
        self.known[nc.get_id()] = (nc, not side)
        if not side and z3.is_or(c):
            for x in c.children():
                self.known[x.get_id()] = (x, False)
        self.add(lit)
        if not keep_model:
            self.model = None

    def choose(self, propose):
        """Model-guided exhaustive case split.

        propose(model) -> (key, cond) where cond characterises the outcome key; key is hashable.
        condof(key) is obtained by calling propose with key= for replay.
        """
        self.tick()
        excluded = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] == 'k':
                key, cond = propose(None, d[1])
                self.log.append(d)
                self.add(z3.simplify(cond))
                self.model = None
                return key
            if d[0] != 'x':
                self.taint.append('nondeterministic re-execution')
                self.abort('replay mismatch')
            excluded = list(d[1])
            for k in excluded:
                self.add(z3.simplify(z3.Not(propose(None, k)[1])))
            self.model = None
        m = self.get_model()
        if m is None:
            self._st('unknown_forks')
            self.taint.append('solver unknown at a case split')
            self.abort('unknown')
        key, cond = propose(m, None)
        if key in excluded:                     # an approximated model: this outcome was explored already
            self._st('unknown_forks')
            self.abort('unknown')
        cond = z3.simplify(cond)
        self._st('forks')
        if not z3.is_true(cond):
            r, _ = self.sat(z3.Not(cond))
            if r != z3.unsat:
                self.pending.append(self.log + [('x', tuple(excluded) + (key,))])
        self.log.append(('k', key))
        if not z3.is_true(cond):
            self.add(cond)
        return key

    # -- concretisation
    def concretize_int(self, v, why='index'):
        v = z3.simplify(v)
        n = z3num(v)
        if n is not None:
            return int(n)

        def propose(m, k):
            if k is None:
                k = int(z3num(m.eval(v, model_completion=True)))
            return k, v == k
        return self.choose(propose)

    def pin(self, x, why):
        """Give up generality: fix a symbolic value to its model value (recorded)."""
        self.pins.append(why)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymInt):
            return self.concretize_int(x.v, why)
        if x.n is not False and (x.n is True or self.fork(x.n)):
            return float('nan')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'p':
                self.taint.append('nondeterministic re-execution')
                self.abort('replay mismatch')
            q = Fraction(d[1])
        else:
            m = self.get_model()
            if m is None:
                self.abort('unknown')
            val = m.eval(x.v, model_completion=True)
            q = z3num(val)
            if q is None:
                q = z3num(val.approx(12))
        self.log.append(('p', str(q)))
        r, _ = self.sat(x.v == z3.RealVal(q))
        if r != z3.unsat:
            self.add(x.v == z3.RealVal(q))
        self.model = None
        return float(q)

    # -- fresh symbols and uninterpreted functions
    def fresh_real(self, base='t'):
        self.fresh += 1
        return z3.Real(f'{base}!{self.fresh}')

    def uf(self, name, args, axioms=None):
        """Ackermannised uninterpreted function application on real arguments."""
        args = [z3.simplify(a, som=True) for a in args]
        for i, a in enumerate(args):
            if nonlinear(a):
                c = poly.canon(a)
                if c is not None:
                    args[i] = z3.simplify(c)
        key = tuple(a.get_id() for a in args)
        lst = self.ufs.setdefault(name, [])
        for k, a, r in lst:
            if k == key:
                return r
        r = self.fresh_real(name)
        for k, a, r2 in lst:
            self.lazy.append(z3.Implies(z3.And(*[x == y for x, y in zip(a, args)]), r == r2))
            if axioms:
                self.lazy.extend(axioms(args, r, a, r2))
        if axioms:
            self.lazy.extend(axioms(args, r, None, None))
        lst.append((key, args, r))
        self.keep.append(args)
        return r


def eng():
    return Engine.cur


# ----------------------------------------------------------------------------------------------
# symbolic values

def _kn(n):
    """a missing-value flag, decided when this path has decided it already"""
    if n is True or n is False:
        return n
    k = eng().known.get(n.get_id())
    return n if k is None else k[1]


def _nor(*flags):
    fs = [f for f in map(_kn, flags) if f is not False]
    if not fs:
        return False
    if any(f is True for f in fs):
        return True
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_))


def isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def cnan(x):
    return isinstance(x, (float, np.floating)) and x != x


class Sym:
    __array_ufunc__ = None
    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1

    def __hash__(self):
        return 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    @property
    def T(self):
        return self

    def item(self, *a):
        return self

    def transpose(self, *a):
        return self

    def squeeze(self, *a):
        return self

    def flatten(self, *a):
        from . import snp
        return snp.mk([self], self.kind, (1,))
    ravel = flatten

    def reshape(self, *shape):
        return self.flatten().reshape(*shape)

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def sum(self, *a, **k):
        return self
    mean = min = max = sum

    def tolist(self):
        return self

    def astype(self, t, *a, **k):
        from . import snp
        return snp.cast(self, snp.kind_of_dtype(t))

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[self.kind]

    def round(self, d=0):
        return s_round(self, d)

    def __round__(self, d=None):
        r = s_round(self, d or 0)
        return to_int(r) if d is None else r

    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<sym>'

    # arithmetic
    def __add__(self, o): return _bin(s_add, self, o)
    def __radd__(self, o): return _rbin(s_add, self, o)
    def __sub__(self, o): return _bin(s_sub, self, o)
    def __rsub__(self, o): return _rbin(s_sub, self, o)
    def __mul__(self, o): return _bin(s_mul, self, o)
    def __rmul__(self, o): return NotImplemented if isinstance(o, (list, tuple, str)) else _rbin(s_mul, self, o)
    def __truediv__(self, o): return _bin(s_div, self, o)
    def __rtruediv__(self, o): return _rbin(s_div, self, o)
    def __floordiv__(self, o): return _bin(s_floordiv, self, o)
    def __rfloordiv__(self, o): return _rbin(s_floordiv, self, o)
    def __mod__(self, o): return _bin(s_mod, self, o)
    def __rmod__(self, o): return _rbin(s_mod, self, o)
    def __pow__(self, o, m=None): return _bin(s_pow, self, o)
    def __rpow__(self, o): return _rbin(s_pow, self, o)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o): return _bin(s_lt, self, o)
    def __le__(self, o): return _bin(s_le, self, o)
    def __gt__(self, o): return _bin(s_gt, self, o)
    def __ge__(self, o): return _bin(s_ge, self, o)
    def __eq__(self, o): return _bin(s_eq, self, o)
    def __ne__(self, o): return _bin(s_ne, self, o)
    def __and__(self, o): return _bin(s_and, self, o)
    __rand__ = __and__
    def __or__(self, o): return _bin(s_or, self, o)
    __ror__ = __or__
    def __xor__(self, o): return _bin(s_xor, self, o)
    __rxor__ = __xor__
    def __invert__(self): return s_not(self)

    def __floor__(self): return to_int(s_floor(self))
    def __ceil__(self): return to_int(s_ceil(self))
    def __trunc__(self): return to_int(self)


def _bin(f, a, b):
    if isinstance(b, np.ndarray):
        from . import snp
        return snp.ew(f, a, b)
    if b is None or isinstance(b, (str, list, tuple, dict, type)):
        if isinstance(b, (list, tuple)):
            from . import snp
            return snp.ew(f, a, snp.array(b))
        return NotImplemented
    return f(a, b)


def _rbin(f, a, b):
    if isinstance(b, np.ndarray):
        from . import snp
        return snp.ew(f, b, a)
    if isinstance(b, (list, tuple)):
        from . import snp
        return snp.ew(f, snp.array(b), a)
    if b is None or isinstance(b, (str, dict, type)):
        return NotImplemented
    return f(b, a)


class SymBool(Sym):
    __slots__ = ('b', 'sneg')
    kind = 'b'

    def __init__(self, b, sneg=None):
        self.b = b
        self.sneg = sneg

    def __bool__(self):
        return eng().fork(self.b)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))


class SymInt(Sym):
    __slots__ = ('v',)
    kind = 'i'

    def __init__(self, v):
        self.v = v

    n = False

    def __bool__(self):
        return eng().fork(self.v != 0)

    def __index__(self):
        return eng().concretize_int(self.v)

    def __int__(self):
        return eng().concretize_int(self.v)

    def __float__(self):
        return float(eng().concretize_int(self.v))


class SymFloat(Sym):
    __slots__ = ('v', 'n', 'sq', 'digits')
    kind = 'f'

    def __init__(self, v, n=False, sq=None):
        self.v = v
        self.n = n
        self.sq = sq
        self.digits = None

    def __bool__(self):
        c = self.v != 0
        if self.n is True:
            return True
        if self.n is not False:
            c = z3.Or(c, self.n)
        return eng().fork(c)

    def __float__(self):
        return eng().pin(self, 'float()')

    def __int__(self):
        return int(to_int(self))

    def is_integer(self):
        return mkbool(z3.IsInt(self.v))


def mkbool(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def zb(x):
    """z3 Bool of a truth value."""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymInt):
        return x.v != 0
    if isinstance(x, SymFloat):
        return z3.Or(x.v != 0, x.n) if x.n is not False else x.v != 0
    return z3.BoolVal(bool(x))


def R(x):
    """(real expr, nan flag) of any finite scalar; NaN -> (0, True)."""
    if isinstance(x, SymFloat):
        return x.v, _kn(x.n)
    if isinstance(x, SymInt):
        return z3.ToReal(x.v), False
    if isinstance(x, SymBool):
        return z3.If(x.b, rv(1), rv(0)), False
    if cnan(x):
        return rv(0), True
    return rv(x), False


def I(x):
    if isinstance(x, SymInt):
        return x.v
    if isinstance(x, SymBool):
        return z3.If(x.b, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def kind(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    return 'o'


def mkf(v, n=False, sq=None):
    if n is True:
        return math.nan
    return SymFloat(v, n, sq)


def mki(v):
    q = z3num(v)
    if q is not None:
        return int(q)
    return SymInt(v)


def _inf_arith(name, a, b):
    """One operand is a concrete infinity, the other symbolic."""
    if isinf(a):
        inf, s, left = float(a), b, True
    else:
        inf, s, left = float(b), a, False
    if isinstance(s, SymFloat) and s.n is not False:
        if s.n is True or eng().fork(s.n):
            return math.nan
    if name == 'add':
        return inf
    if name == 'sub':
        return inf if left else -inf
    if name == 'mul':
        v, _ = R(s)
        if eng().fork(v > 0):
            return inf
        if eng().fork(v < 0):
            return -inf
        return math.nan
    if name == 'div':
        if left:
            v, _ = R(s)
            if eng().fork(v >= 0):
                return inf
            return -inf
        return 0.0
    raise Unsupported('inf ' + name)


def _npconc(a):
    if isinstance(a, (bool, np.bool_)):
        return np.bool_(a)
    if isinstance(a, float):
        return np.float64(a)
    return a


def _native(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def s_add(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _native(_npconc(a) + _npconc(b))
    if isinf(a) or isinf(b):
        return _inf_arith('add', a, b)
    if kind(a) == 'f' or kind(b) == 'f':
        (x, n), (y, m) = R(a), R(b)
        if not isinstance(a, Sym) and a == 0:
            return b if kind(b) == 'f' else mkf(y, m)
        if not isinstance(b, Sym) and b == 0:
            return a if kind(a) == 'f' else mkf(x, n)
        return mkf(x + y, _nor(n, m))
    if kind(a) == 'b' and kind(b) == 'b':
        return s_or(a, b)
    return mki(I(a) + I(b))


def s_sub(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _native(_npconc(a) - _npconc(b))
    if isinf(a) or isinf(b):
        return _inf_arith('sub', a, b)
    if kind(a) == 'f' or kind(b) == 'f':
        (x, n), (y, m) = R(a), R(b)
        if not isinstance(b, Sym) and b == 0:
            return a if kind(a) == 'f' else mkf(x, n)
        return mkf(x - y, _nor(n, m))
    return mki(I(a) - I(b))


def s_mul(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return _native(_npconc(a) * _npconc(b))
    if isinf(a) or isinf(b):
        return _inf_arith('mul', a, b)
    if kind(a) == 'f' or kind(b) == 'f':
        (x, n), (y, m) = R(a), R(b)
        nn = _nor(n, m)
        for p, q, o in ((a, y, b), (b, x, a)):
            if not isinstance(p, Sym) and p == p:
                if p == 1:
                    return o if kind(o) == 'f' else mkf(q, nn)
                if p == 0 and nn is False:
                    return 0.0
        if isinstance(a, SymFloat) and a is b and a.sq is not None:
            return mkf(a.sq, nn)
        return mkf(x * y, nn)
    if kind(a) == 'b' and kind(b) == 'b':
        return s_and(a, b)
    return mki(I(a) * I(b))


def s_div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return _native(np.float64(a) / np.float64(b))
    if isinf(a) or isinf(b):
        return _inf_arith('div', a, b)
    (x, n), (y, m) = R(a), R(b)
    nn = _nor(n, m)
    if nn is True:
        return math.nan
    if not isinstance(b, Sym):
        if b == 0:
            if nn is not False and eng().fork(nn):
                return math.nan
            if eng().fork(x > 0):
                return math.inf
            if eng().fork(x < 0):
                return -math.inf
            return math.nan
        if b == 1 and kind(a) == 'f':
            return a
        q = simplest(float(b)) if isinstance(b, (float, np.floating)) else Fraction(int(b))
        return mkf(x * z3.RealVal(1 / q), nn)
    # a NaN denominator's payload is arbitrary: choose it non-zero on this path
    zero = (y if getattr(b, 'sq', None) is None else b.sq) == 0      # sqrt(v) is zero exactly when v is
    if m is not False:
        zero = z3.And(z3.Not(m), zero)
    if eng().fork(zero):
        if n is True or (n is not False and eng().fork(n)):
            return math.nan
        if eng().fork(x > 0):
            return math.inf
        if eng().fork(x < 0):
            return -math.inf
        return math.nan
    if not isinstance(a, Sym) and a == 0 and nn is False:
        return 0.0
    return mkf(x / y, nn)


def s_floordiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _native(_npconc(a) // _npconc(b))
    if kind(a) != 'f' and kind(b) != 'f' and not isinstance(b, Sym) and int(b) > 0:
        return mki(I(a) / int(b))
    return s_floor(s_div(a, b))


def s_mod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _native(_npconc(a) % _npconc(b))
    if kind(a) != 'f' and kind(b) != 'f' and not isinstance(b, Sym) and int(b) > 0:
        return mki(I(a) % int(b))
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


def s_fmod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.fmod(a, b)
    q = s_div(a, b)
    t = s_ite(s_ge(q, 0), s_floor(q), s_ceil(q))
    return s_sub(a, s_mul(b, t))


def s_pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            if kind(a) == 'f' or kind(b) == 'f':
                return _native(np.float64(a) ** np.float64(b))
            return a ** b
    if isinstance(b, Sym):
        raise Unsupported('symbolic exponent')
    if b == 0.5:
        return s_sqrt(a)
    if float(b) != int(b):
        raise Unsupported('fractional power')
    n = int(b)
    if n == 0:
        return 1.0 if kind(a) == 'f' else 1
    if n < 0:
        return s_div(1.0, s_pow(a, -n))
    if isinstance(a, SymFloat) and a.sq is not None and n % 2 == 0:
        base = mkf(a.sq, a.n)
        n //= 2
        a = base
    r = a
    for _ in range(n - 1):
        r = s_mul(r, a)
    if kind(b) == 'f' and kind(r) != 'f':
        r = cast_f(r)
    return r


def s_neg(a):
    if not isinstance(a, Sym):
        return -_native(a)
    if kind(a) == 'f':
        return mkf(-a.v, a.n)
    return mki(-I(a))


def s_abs(a):
    if not isinstance(a, Sym):
        return abs(_native(a))
    if kind(a) == 'f':
        return mkf(z3.If(a.v >= 0, a.v, -a.v), a.n)
    if kind(a) == 'b':
        return a
    return mki(z3.If(a.v >= 0, a.v, -a.v))


def s_sign(a):
    if not isinstance(a, Sym):
        return _native(np.sign(a))
    if kind(a) == 'f':
        return mkf(z3.If(a.v > 0, rv(1), z3.If(a.v < 0, rv(-1), rv(0))), a.n)
    v = I(a)
    return mki(z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0))))


def _linear(e):
    """coefficients of a sum of multiples of variables: {id: [variable, coefficient]}, constant; None for anything else"""
    terms, cst = {}, 0
    todo = [(e, 1)]
    while todo:
        t, f = todo.pop()
        v = z3num(t)
        if v is not None:
            cst += f * v
        elif z3.is_add(t):
            todo += [(c, f) for c in t.children()]
        elif z3.is_sub(t):
            ch = t.children()
            todo += [(ch[0], f)] + [(c, -f) for c in ch[1:]]
        elif z3.is_mul(t) and t.num_args() == 2 and z3num(t.arg(0)) is not None:
            todo.append((t.arg(1), f * z3num(t.arg(0))))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            todo.append((t.arg(0), -f))
        elif z3.is_const(t):
            terms.setdefault(t.get_id(), [t, 0])[1] += f
        else:
            return None, None
    return {k: v for k, v in terms.items() if v[1] != 0}, cst


def _cmp_logs(op, x, y):
    """k log a - k log b + c compared with 0, as a comparison of a with b exp(-c/k): nothing is left of the logarithm"""
    d = z3.simplify(x - y, som=True)
    terms, cst = _linear(d)
    if not terms or len(terms) > 2 or op not in ('lt', 'le'):
        return None
    logs = {r.get_id(): a[0] for _, a, r in eng().ufs['log']}
    if any(k not in logs for k in terms):
        return None
    (i, (_, k)), rest = list(terms.items())[0], list(terms.items())[1:]
    if rest and abs(rest[0][1][1] + k) > abs(k) * Fraction(1, 10 ** 11):
        return None
    q = -float(cst) / float(k)
    if abs(q) > 600:
        return None
    a, b = logs[i], (logs[rest[0][0]] if rest else rv(1))
    b = b * rv(math.exp(q))
    if k < 0:
        a, b = b, a
    return a < b if op == 'lt' else a <= b


def _cmp(op, a, b):
    if isinf(a) or isinf(b):
        # the symbolic side is finite or NaN
        s, inf, flip = (b, float(a), True) if isinf(a) else (a, float(b), False)
        if not isinstance(s, Sym):
            return None
        n = s.n if isinstance(s, SymFloat) else False
        rel = 1 if inf > 0 else -1          # inf compared to s
        if op in ('lt', 'le'):
            t = (rel < 0) if flip else (rel > 0)
        elif op == 'eq':
            t = False
        else:
            t = True
            return True
        if not t:
            return False
        return True if n is False else mkbool(z3.Not(n) if n is not True else False)
    if kind(a) == 'f' or kind(b) == 'f':
        (x, n), (y, m) = R(a), R(b)
        nn = _nor(n, m)
        if nn is True:
            return op == 'ne'
        c = None
        # sqrt(q) compared with a non-negative constant: compare radicands
        for p, o, left in ((a, b, True), (b, a, False)):
            if isinstance(p, SymFloat) and p.sq is not None:
                if isinstance(o, SymFloat) and o.sq is not None:
                    l, r = (p.sq, o.sq) if left else (o.sq, p.sq)
                elif not isinstance(o, Sym) and o >= 0:
                    o2 = rv(o) * rv(o)
                    l, r = (p.sq, o2) if left else (o2, p.sq)
                else:
                    continue
                c = {'lt': l < r, 'le': l <= r, 'eq': l == r, 'ne': l != r}[op]
                break
        if c is None and eng().ufs.get('log'):
            c = _cmp_logs(op, x, y)
        if c is None:
            c = {'lt': lambda: x < y, 'le': lambda: x <= y, 'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
    else:
        if kind(a) == 'b' and kind(b) == 'b':
            p, q = zb(a), zb(b)
            if op == 'eq':
                return mkbool(p == q)
            if op == 'ne':
                return mkbool(z3.Xor(p, q))
        x, y = I(a), I(b)
        nn = False
        c = {'lt': lambda: x < y, 'le': lambda: x <= y, 'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
    if nn is not False:
        c = z3.Or(nn, c) if op == 'ne' else z3.And(z3.Not(nn), c)
    return mkbool(c)


def _both_conc(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym)


def s_lt(a, b):
    if _both_conc(a, b):
        return bool(a < b)
    return _cmp('lt', a, b)


def s_le(a, b):
    if _both_conc(a, b):
        return bool(a <= b)
    return _cmp('le', a, b)


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_eq(a, b):
    if _both_conc(a, b):
        return bool(a == b)
    if not (isinstance(a, Sym) or isnum(a)) or not (isinstance(b, Sym) or isnum(b)):
        return False
    return _cmp('eq', a, b)


def s_ne(a, b):
    if _both_conc(a, b):
        return bool(a != b)
    if not (isinstance(a, Sym) or isnum(a)) or not (isinstance(b, Sym) or isnum(b)):
        return True
    return _cmp('ne', a, b)


def truth(x):
    """truth value as SymBool/bool without forking"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return mkbool(zb(x))
    return bool(x)


def s_land(a, b):
    a, b = truth(a), truth(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(z3.And(a.b, b.b), _sor(a, b))


def s_lor(a, b):
    a, b = truth(a), truth(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool(z3.Or(a.b, b.b), _sand(a, b))


def _sn(a):
    return a.sneg if a.sneg is not None else z3.Not(a.b)


def _sor(a, b):
    if a.sneg is None and b.sneg is None:
        return None
    return z3.Or(_sn(a), _sn(b))


def _sand(a, b):
    if a.sneg is None and b.sneg is None:
        return None
    return z3.And(_sn(a), _sn(b))


def s_lxor(a, b):
    a, b = truth(a), truth(b)
    if _both_conc(a, b):
        return a != b
    return mkbool(z3.Xor(zb(a), zb(b)))


def s_lnot(a):
    a = truth(a)
    if isinstance(a, SymBool):
        return mkbool(z3.Not(a.b))
    return not a


def s_and(a, b):
    if _both_conc(a, b):
        return _native(_npconc(a) & _npconc(b))
    if kind(a) == 'b' and kind(b) == 'b':
        return s_land(a, b)
    raise Unsupported('bitwise and on symbolic integers')


def s_or(a, b):
    if _both_conc(a, b):
        return _native(_npconc(a) | _npconc(b))
    if kind(a) == 'b' and kind(b) == 'b':
        return s_lor(a, b)
    raise Unsupported('bitwise or on symbolic integers')


def s_xor(a, b):
    if _both_conc(a, b):
        return _native(_npconc(a) ^ _npconc(b))
    if kind(a) == 'b' and kind(b) == 'b':
        return s_lxor(a, b)
    raise Unsupported('bitwise xor on symbolic integers')


def s_not(a):
    if isinstance(a, SymBool):
        return s_lnot(a)
    if isinstance(a, SymInt):
        return mki(-a.v - 1)
    if isinstance(a, SymFloat):
        raise TypeError("ufunc 'invert' not supported for the input types")
    if kind(a) == 'b':
        return not a
    return ~_native(a)


def s_ite(c, a, b):
    if not isinstance(c, Sym):
        return a if c else b
    c = truth(c)
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    if isinf(a) or isinf(b):
        return a if eng().fork(c.b) else b
    ka, kb = kind(a), kind(b)
    if ka == 'o' or kb == 'o':
        return a if eng().fork(c.b) else b
    if ka == 'f' or kb == 'f':
        (x, n), (y, m) = R(a), R(b)
        if n is False and m is False:
            nn = False
        elif n is True and m is True:
            return math.nan
        else:
            zn = z3.BoolVal(n) if isinstance(n, bool) else n
            zm = z3.BoolVal(m) if isinstance(m, bool) else m
            nn = z3.simplify(z3.If(c.b, zn, zm))
            # keep the payload of the non-NaN side (a NaN payload is irrelevant)
            if n is True:
                return mkf(y, nn)
            if m is True:
                return mkf(x, nn)
        return mkf(z3.If(c.b, x, y), nn)
    if ka == 'b' and kb == 'b':
        return mkbool(z3.If(c.b, zb(a), zb(b)))
    return mki(z3.If(c.b, I(a), I(b)))


def s_isnan(a):
    if isinstance(a, SymFloat):
        return mkbool(a.n)
    if isinstance(a, Sym):
        return False
    if not isnum(a):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return bool(a != a)


def s_isfinite(a):
    if isinstance(a, Sym):
        return s_lnot(s_isnan(a))
    return bool(np.isfinite(a))


def s_isinf(a):
    if isinstance(a, Sym):
        return False
    return bool(np.isinf(a))


def s_max(a, b):
    """np.maximum: NaN propagates"""
    if _both_conc(a, b):
        return _native(np.maximum(a, b))
    return s_ite(s_lor(s_isnan(a), s_ge(a, b)), a, b)


def s_min(a, b):
    if _both_conc(a, b):
        return _native(np.minimum(a, b))
    return s_ite(s_lor(s_isnan(a), s_le(a, b)), a, b)


def s_fmax(a, b):
    if _both_conc(a, b):
        return _native(np.fmax(a, b))
    return s_ite(s_lor(s_isnan(b), s_ge(a, b)), a, b)


def s_fmin(a, b):
    if _both_conc(a, b):
        return _native(np.fmin(a, b))
    return s_ite(s_lor(s_isnan(b), s_le(a, b)), a, b)


def cast_f(a):
    if isinstance(a, SymFloat) or isinstance(a, float):
        return a
    if isinstance(a, Sym):
        v, n = R(a)
        return mkf(v, n)
    return float(a)


def _split_int(v):
    """v = i + rest with i an integer term (or None): makes floor/ceil of sums easy for the solver"""
    v = z3.simplify(v, som=True)
    parts = v.children() if z3.is_add(v) else [v]
    ints, rest = [], []
    for p in parts:
        q = z3num(p)
        if q is not None:
            w = math.floor(q)
            if w:
                ints.append(z3.IntVal(w))
            if q != w:
                rest.append(z3.RealVal(q - w))
            continue
        if z3.is_to_real(p):
            ints.append(p.arg(0))
            continue
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_to_real(p.arg(1)):
            q = z3num(p.arg(0))
            if q is not None and q.denominator == 1:
                ints.append(z3.IntVal(int(q)) * p.arg(1).arg(0))
                continue
        rest.append(p)
    if not ints:
        return None, v
    return z3.Sum(ints) if len(ints) > 1 else ints[0], (z3.Sum(rest) if len(rest) > 1 else rest[0]) if rest else None


def floor_int(v):
    """floor of a real term as an integer term"""
    i, r = _split_int(v)
    if i is None:
        return z3.ToInt(r)
    if r is None:
        return z3.simplify(i)
    q = z3num(r)
    if q is not None:
        return z3.simplify(i + math.floor(q))
    return i + z3.ToInt(r)


def to_int(a):
    """int(): truncation toward zero; NaN raises ValueError"""
    if isinstance(a, SymInt):
        return a
    if isinstance(a, SymBool):
        return mki(I(a))
    if isinstance(a, SymFloat):
        if a.n is not False and (a.n is True or eng().fork(a.n)):
            raise ValueError('cannot convert float NaN to integer')
        v = z3.simplify(a.v)
        if z3.is_to_real(v):
            return mki(v.arg(0))
        i, r = _split_int(v)
        if r is None:
            return mki(z3.simplify(i))
        return mki(z3.If(v >= 0, floor_int(v), -floor_int(-v)))
    return int(a)


def s_floor(a):
    if not isinstance(a, Sym):
        return _native(np.floor(a))
    if kind(a) != 'f':
        return cast_f(a)
    return mkf(z3.ToReal(floor_int(a.v)), a.n)


def s_ceil(a):
    if not isinstance(a, Sym):
        return _native(np.ceil(a))
    if kind(a) != 'f':
        return cast_f(a)
    return mkf(z3.ToReal(z3.simplify(-floor_int(-a.v))), a.n)


def s_trunc(a):
    if not isinstance(a, Sym):
        return _native(np.trunc(a))
    return s_ite(s_ge(a, 0), s_floor(a), s_ceil(a))


def s_round(a, d=0):
    if not isinstance(a, Sym):
        return _native(np.round(a, d)) if kind(a) != 'i' else a
    if kind(a) != 'f':
        return a
    p = 10 ** d if d >= 0 else Fraction(1, 10 ** -d)
    x = a.v * z3.RealVal(p) if p != 1 else a.v
    k = z3.ToInt(x + z3.RealVal('1/2'))
    kr = z3.ToReal(k)
    tie = kr == x + z3.RealVal('1/2')
    r = z3.If(z3.And(tie, k % 2 == 1), kr - 1, kr)
    return mkf(r / z3.RealVal(p) if p != 1 else r, a.n)


def s_sqrt(a, pymath=False):
    if not isinstance(a, Sym):
        if pymath:
            return math.sqrt(a)
        with np.errstate(all='ignore'):
            return _native(np.sqrt(np.float64(a)))
    v, n = R(a)
    e = eng()
    v = z3.simplify(v)
    neg = v < 0
    if n is not False:
        neg = z3.And(z3.Not(n), neg)
    key = ('sqrt', v.get_id(), n.get_id() if isinstance(n, z3.AstRef) else n)
    if key in e.nondet:
        return e.nondet[key][1]
    e.pending_root = None
    c = _sqrt_canon(e, v, n)
    pend = e.pending_root
    if c is not None:
        e.nondet[key] = (v, c)
        return c
    if _obviously_nonneg(v):
        isneg = False
    else:
        isneg = e.fork(neg)
    if isneg:
        if pymath:
            raise ValueError('math domain error')
        r = math.nan
    else:
        q = z3num(v)
        s = e.uf('sqrt', [v], None)
        e.sqrts.add(s.get_id())
        if pend is not None and n is False:
            e.roots.append(pend + (s,))
        d = z3.And(s >= 0, s * s == v)
        if n is not False:
            d = z3.Or(n, d)
        e.lazy.append(d)
        r = mkf(s, n, v)
    e.nondet[key] = (v, r)
    return r


def _frac_sqrt(q):
    """the exact root of a rational, or None"""
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None


def _sqrt_canon(e, v, n):
    """sqrt(a/s^2) with s itself a root known to be positive is sqrt(a)/s, and sqrt(q^2 a) is q sqrt(a) when sqrt(a) exists already"""
    if n is not False or not nonlinear(v):
        return None
    try:
        r = poly._term(v, {})
    except poly.Big:
        return None
    out, den, rest = Fraction(1), [], {}
    for k, ex in r.d.items():
        x = dict(k)
        m = next(iter(x))
        if len(x) == 1 and len(m) == 1 and (m[0][0] in e.sqrts or m[0][0] in e.posvars) and (ex * m[0][1]) % 2 == 0:
            den += [poly._BACK[m[0][0]]] * (ex * m[0][1] // 2)
        else:
            rest[k] = ex
    if not r.n:
        return 0.0
    mul, r = [], poly.Rat(r.n, r.d)
    for u, ex in next(iter(r.n)):
        if u in e.posvars:
            ex = min(dict(m).get(u, 0) for m in r.n) // 2 * 2
            if ex:
                r.n = {tuple((w, x - ex if w == u else x) for w, x in m if not (w == u and x == ex)): c for m, c in r.n.items()}
                mul += [poly._BACK[u]] * (ex // 2)
    root = None
    if mul and not (not rest and set(r.n) == {()}):
        w = poly._z3(r.n)
        for k2, ex in rest.items():
            for _ in range(ex):
                w = w / poly._z3(dict(k2))
        root = s_sqrt(mkf(w, False))
        if not isinstance(root, Sym):
            return root if root != root else None
        root = root.v
    elif not rest and set(r.n) == {()}:
        if r.n[()] < 0:
            return None
        root = z3.RealVal(_frac_sqrt(r.n[()]) or simplest(math.sqrt(r.n[()])))
    else:
        lead, prim = poly._key(r.n)
        k = (prim, tuple(sorted(rest.items())))
        for k2, lead2, s in e.roots:
            if k2 == k and lead / lead2 > 0 and _frac_sqrt(lead / lead2) is not None:
                root = z3.RealVal(_frac_sqrt(lead / lead2)) * s
        if root is None and den:
            w = poly._z3(r.n)
            for k2, ex in rest.items():
                for _ in range(ex):
                    w = w / poly._z3(dict(k2))
            root = s_sqrt(mkf(w, False))
            if not isinstance(root, Sym):
                return root if root != root else None
            root = root.v
        elif root is None:
            e.pending_root = (k, lead)
            return None
    for d in den:
        root = root / d
    for f in mul:
        root = root * f
    return mkf(root, False, v)


def _obviously_nonneg(v):
    """Sums of squares and non-negative literals."""
    if z3.is_add(v):
        return all(_obviously_nonneg(c) for c in v.children())
    q = z3num(v)
    if q is not None:
        return q >= 0
    if z3.is_mul(v):
        ch = list(v.children())
        i = 0
        rest = []
        ids = {}
        for c in ch:
            q = z3num(c)
            if q is not None:
                if q < 0:
                    return False
                continue
            ids[c.get_id()] = ids.get(c.get_id(), 0) + 1
        return all(k % 2 == 0 for k in ids.values())
    if v.decl().kind() == z3.Z3_OP_POWER:
        q = z3num(v.arg(1))
        return q is not None and q % 2 == 0
    return False


def _exp_axioms(a, r, b, r2):
    if b is None:
        return [r > 0, (a[0] == 0) == (r == 1), (a[0] < 0) == (r < 1), r >= 1 + a[0]]
    return [(a[0] < b[0]) == (r < r2)]


def s_exp(a):
    if not isinstance(a, Sym):
        with np.errstate(all='ignore'):
            return _native(np.exp(np.float64(a)))
    v, n = R(a)
    v = z3.simplify(v, som=True)
    if z3num(v) is not None and n is False:
        return math.exp(float(z3num(v)))
    return mkf(eng().uf('exp', [v], _exp_axioms), n)


def _log_axioms(x, r, y, r2):
    if y is None:
        return [(x[0] < 1) == (r < 0), r <= x[0] - 1]
    # monotone, and below its tangents (both arguments are positive)
    return [(x[0] < y[0]) == (r < r2), (r - r2) * y[0] <= x[0] - y[0], (r2 - r) * x[0] <= y[0] - x[0]]


def s_log(a, pymath=False):
    if not isinstance(a, Sym):
        with np.errstate(all='ignore'):
            return math.log(a) if pymath else _native(np.log(np.float64(a)))
    v, n = R(a)
    if eng().fork(v <= 0):
        if pymath:
            raise ValueError('math domain error')
        return math.nan if eng().fork(v < 0) else -math.inf
    return mkf(eng().uf('log', [v], _log_axioms), n)


def _sin_axioms(a, r, b, r2):
    if b is None:
        return [r <= 1, r >= -1, z3.Implies(a[0] == 0, r == 0),
                z3.Implies(z3.And(a[0] > 0, a[0] < rv(math.pi)), r > 0),
                z3.Implies(z3.And(a[0] < 0, a[0] > rv(-math.pi)), r < 0)]
    h = rv(math.pi / 2)
    return [z3.Implies(a[0] == -b[0], r == -r2),
            z3.Implies(z3.And(a[0] <= h, a[0] >= -h, b[0] <= h, b[0] >= -h), (a[0] < b[0]) == (r < r2))]


def _isymop(name, fn, axioms=None):
    def op(a):
        if not isinstance(a, Sym):
            with np.errstate(all='ignore'):
                return _native(fn(np.float64(a)))
        v, n = R(a)
        v = z3.simplify(v, som=True)
        if z3num(v) is not None and n is False:
            return float(fn(float(z3num(v))))
        return mkf(eng().uf(name, [v], axioms), n)
    op.__name__ = 's_' + name
    return op


s_sin = _isymop('sin', np.sin, _sin_axioms)
s_cos = _isymop('cos', np.cos, lambda a, r, b, r2: [r <= 1, r >= -1] if b is None else [])
s_tan = _isymop('tan', np.tan)
s_arctan = _isymop('arctan', np.arctan)
s_arcsin = _isymop('arcsin', np.arcsin)
s_arccos = _isymop('arccos', np.arccos)


def s_radians(a):
    if not isinstance(a, Sym):
        return _native(np.radians(a))
    return s_div(s_mul(a, math.pi), 180)


# ----------------------------------------------------------------------------------------------
# strings of digits (for str() of symbolic dates)

class SymStr:
    """A string whose characters are concrete one-char strings or z3 Int digits (0..9)."""

    def __init__(self, chars):
        self.chars = list(chars)

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.chars[i]).lower_()
        c = self.chars[i]
        return SymStr([c]).lower_()

    def lower_(self):
        if all(isinstance(c, str) for c in self.chars):
            return ''.join(self.chars)
        return self

    def __iter__(self):
        return (self[i] for i in range(len(self.chars)))

    def __add__(self, o):
        return SymStr(self.chars + (o.chars if isinstance(o, SymStr) else list(o)))

    def __radd__(self, o):
        return SymStr(list(o) + self.chars)

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            oc = list(o) if isinstance(o, str) else o.chars
            if len(oc) != len(self.chars):
                return False
            cs = []
            for a, b in zip(self.chars, oc):
                if isinstance(a, str) and isinstance(b, str):
                    if a != b:
                        return False
                    continue
                za = self._dig(a)
                zb_ = self._dig(b)
                if za is None or zb_ is None:
                    return False
                cs.append(za == zb_)
            return mkbool(z3.And(*cs)) if cs else True
        return False

    def __ne__(self, o):
        return s_lnot(self == o)

    @staticmethod
    def _dig(c):
        if isinstance(c, str):
            return z3.IntVal(int(c)) if c.isdigit() else None
        return c

    def isdigit(self):
        return all(not isinstance(c, str) or c.isdigit() for c in self.chars) and len(self.chars) > 0
    isnumeric = isdecimal = isdigit

    def strip(self, *a):
        return self

    def split(self, sep=None, maxsplit=-1):
        out, curr = [], []
        for c in self.chars:
            if isinstance(c, str) and c == sep:
                out.append(SymStr(curr).lower_())
                curr = []
            else:
                curr.append(c)
        out.append(SymStr(curr).lower_())
        return out

    def partition(self, sep):
        for i, c in enumerate(self.chars):
            if c == sep:
                return self[:i], sep, self[i + 1:]
        return self, '', ''

    def find(self, sub):
        for i, c in enumerate(self.chars):
            if isinstance(c, str) and c == sub:
                return i
        return -1

    def replace(self, a, b):
        if len(a) == 1:
            out = []
            for c in self.chars:
                if isinstance(c, str) and c == a:
                    out.extend(list(b))
                else:
                    out.append(c)
            return SymStr(out).lower_()
        raise Unsupported('SymStr.replace')

    def endswith(self, s):
        return self[-len(s):] == s if len(self) >= len(s) else False

    def startswith(self, s):
        return self[:len(s)] == s

    def zfill(self, n):
        return SymStr(['0'] * max(0, n - len(self.chars)) + self.chars)

    def ljust(self, n, ch=' '):
        return SymStr(self.chars + [ch] * max(0, n - len(self.chars)))

    def rstrip(self, chars=' '):
        cs = list(self.chars)
        while cs and isinstance(cs[-1], str) and cs[-1] in chars:
            cs.pop()
        return SymStr(cs).lower_()

    def to_int(self):
        cs = self.chars
        neg = False
        if cs and cs[0] == '-':
            neg, cs = True, cs[1:]
        elif cs and cs[0] == '+':
            cs = cs[1:]
        if not cs or any(isinstance(c, str) and not c.isdigit() for c in cs):
            raise ValueError("invalid literal for int() with base 10: '<sym>'")
        v = z3.IntVal(0)
        for c in cs:
            v = v * 10 + self._dig(c)
        v = z3.simplify(v)
        return mki(-v if neg else v)

    def to_float(self):
        cs = [c for c in self.chars]
        if cs.count('.') > 1:
            raise ValueError('could not convert string to float')
        if '.' in cs:
            k = cs.index('.')
            ip, fp = cs[:k], cs[k + 1:]
        else:
            ip, fp = cs, []
        base = SymStr(ip + fp).to_int()
        return s_div(base, float(10 ** len(fp)))
