"""Arithmetic atoms with quotients or products brought to polynomial form (denominators cleared), which is what
nonlinear solvers are good at.  Every denominator is known to be non-zero on the path (core.s_div splits on it)."""
from fractions import Fraction

import z3

LIMIT = 400
_CACHE = {}
_BACK = {}


class Big(Exception):
    pass


def _padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise Big
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise Big
    return r


ONE = {(): Fraction(1)}


def _key(p):
    """primitive form of a polynomial: (factor, hashable)"""
    lead = p[min(p)]
    return lead, tuple(sorted((m, c / lead) for m, c in p.items()))


class Rat:
    """num / product of den factors (dict of primitive polynomial -> exponent)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


def _cancel(r):
    """cancel single variables that divide the numerator, and a numerator that is a multiple of a factor"""
    if not r.d or not r.n:
        return Rat(r.n) if not r.n else r
    n, d = r.n, dict(r.d)
    for k, e in r.d.items():
        if len(k) == 1:
            for v, ex in k[0][0]:
                if len(k[0][0]) > 1:
                    break
                f = min(min((dict(m).get(v, 0) for m in n), default=0), ex * e)
                if f and ex == 1:
                    n = {tuple((u, x - f if u == v else x) for u, x in m if not (u == v and x == f)): c for m, c in n.items()}
                    d[k] -= f
                    if not d[k]:
                        del d[k]
        elif len(n) == len(k):
            lead, prim = _key(n)
            if prim == k:
                n = {(): lead}
                d[k] -= 1
                if not d[k]:
                    del d[k]
    return Rat(n, d)


def canon(t):
    """one form for equal quotients, as far as this module can tell"""
    try:
        r = _term(t, {})
    except Big:
        return None
    n = _z3(r.n)
    for k, e in sorted(r.d.items()):
        for _ in range(e):
            n = n / _z3(dict(k))
    return n


def _lift(r, d):
    """numerator of r over the common denominator d"""
    n = r.n
    for k, e in d.items():
        for _ in range(e - r.d.get(k, 0)):
            n = _pmul(n, dict(k))
    return n


def _add(a, b, f=1):
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = max(d.get(k, 0), e)
    return _cancel(Rat(_padd(_lift(a, d), _lift(b, d), f), d))


def _mul(a, b):
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = d.get(k, 0) + e
    return _cancel(Rat(_pmul(a.n, b.n), d))


def _inv(a):
    if not a.n:
        raise Big
    n = ONE
    for k, e in a.d.items():
        for _ in range(e):
            n = _pmul(n, dict(k))
    if set(a.n) == {()}:
        return Rat({m: c / a.n[()] for m, c in n.items()})
    lead, k = _key(a.n)
    return Rat({m: c / lead for m, c in n.items()}, {k: 1})


def _var(t):
    _BACK[t.get_id()] = t
    return Rat({((t.get_id(), 1),): Fraction(1)})


def _term(t, memo):
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        q = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
        r = Rat({(): Fraction(q.numerator, q.denominator)} if q else {})
    else:
        d = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = _term(ch[0], memo)
            for c in ch[1:]:
                r = _add(r, _term(c, memo))
        elif d == z3.Z3_OP_SUB:
            r = _term(ch[0], memo)
            for c in ch[1:]:
                r = _add(r, _term(c, memo), -1)
        elif d == z3.Z3_OP_UMINUS:
            r = _add(Rat({}), _term(ch[0], memo), -1)
        elif d == z3.Z3_OP_MUL:
            r = _term(ch[0], memo)
            for c in ch[1:]:
                r = _mul(r, _term(c, memo))
        elif d == z3.Z3_OP_DIV:
            r = _mul(_term(ch[0], memo), _inv(_term(ch[1], memo)))
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 < ch[1].numerator_as_long() < 9:
            b = r = _term(ch[0], memo)
            for _ in range(ch[1].numerator_as_long() - 1):
                r = _mul(r, b)
        else:
            r = _var(t)
    memo[k] = r
    return r


def _z3(p):
    ts = []
    for m, c in sorted(p.items()):
        fs = [_BACK[v] for v, e in m for _ in range(e)]
        fs = [z3.ToReal(f) if f.is_int() else f for f in fs]
        if c != 1 or not fs:
            fs = [z3.RealVal(c)] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


def _scale(p):
    """divide by the positive content, for small numbers"""
    if not p:
        return p
    m = max(abs(c) for c in p.values())
    return {k: c / m for k, c in p.items()}


OPS = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_GE: lambda a: a >= 0, z3.Z3_OP_GT: lambda a: a > 0}


def _atom(op, a, b):
    r = _add(_term(a, {}), _term(b, {}), -1)
    n = _scale(r.n)
    if op == z3.Z3_OP_EQ:
        return _z3(n) == 0
    # sign of a quotient is the sign of numerator times the odd denominators
    for k, e in r.d.items():
        if e % 2:
            n = _pmul(n, dict(k))
    return OPS[op](_z3(n))


def norm(c, hard):
    """an equivalent condition with polynomial atoms (hard: predicate telling whether a term needs it)"""
    k = c.get_id()
    if k in _CACHE:
        return _CACHE[k][1]
    r = c
    if z3.is_app(c) and c.num_args() and hard(c):
        d, ch = c.decl().kind(), c.children()
        if d in OPS or (d == z3.Z3_OP_EQ and z3.is_real(ch[0]) and z3.is_real(ch[1])):
            if all(x.sort() == z3.RealSort() for x in ch):
                try:
                    r = z3.simplify(_atom(d, *ch))
                except Big:
                    r = c
        elif d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or \
                (d in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_XOR) and all(z3.is_bool(x) for x in ch)):
            r = c.decl()(*[norm(x, hard) for x in ch])
    _CACHE[k] = (c, r)
    return r
