"""Scalar symbolic execution of the real Python code: numbers, booleans, trigonometric series, path exploration.

The code under test is called with proxies (SNum: an int or float which is a linear form over z3 variables; Trig: a Fourier
series in such forms).  Every branch on a proxy asks z3 which sides are feasible and the run is repeated for each of them.
Arithmetic is over the reals/integers (documented assumption); trigonometric identities are exact up to the float error of
the coefficients."""
import math
import sys
import cmath
import itertools
import contextlib
import builtins
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

TWO_PI = 2 * math.pi


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = self.terms = self.paths = 0
        self.solver_s = 0.0

    def d(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown, solver_s=self.solver_s, terms=self.terms)


ST = Stats()
X = None      # current execution


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('infinite or nan constant')
    return Fraction(x)


def isnum(x):
    return type(x) in (int, float, bool, Fraction) or isinstance(x, (np.integer, np.floating, np.bool_)) and not isinstance(x, np.ndarray)


def zq(f, real):
    f = Fraction(f)
    if not real:
        assert f.denominator == 1
        return z3.IntVal(f.numerator)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


class Exec:
    """one run of the code along one path"""

    def __init__(self, prefix=(), timeout=10000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.prefix = list(prefix)
        self.taken = []            # (choice index, number of options)
        self.vars = {}             # name -> (SNum, lo, hi)
        self.atoms = []            # (z3 term, is_int)
        self.memo = {}
        self.model = None

    # -- atoms
    def atom(self, term, is_int):
        self.atoms.append((term, is_int))
        return len(self.atoms) - 1

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        ST.solver_s += time.time() - t
        ST.queries += 1
        if r == z3.unsat:
            ST.unsat += 1
        elif r == z3.sat:
            ST.sat += 1
            self.model = self.solver.model()
        else:
            ST.unknown += 1
        return r

    def decide(self, options):
        """options: list of (value, z3 formula); picks one feasible option, remembers the alternatives"""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append((k, None))
            self.solver.add(options[k][1])
            return options[k][0]
        feas = []
        for k, (v, f) in enumerate(options):
            if self.check(f) != z3.unsat:
                feas.append(k)
        if not feas:
            raise Infeasible()
        k = feas[0]
        self.taken.append((k, feas))
        self.solver.add(options[k][1])
        return options[k][0]

    def truth(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = ('truth', f.sexpr())
        if key in self.memo:
            return self.memo[key]
        r = self.decide([(True, f), (False, z3.Not(f))])
        self.memo[key] = r
        return r

    def concretize(self, x, limit=400):
        """fork over the feasible values of an integer form"""
        t = x.z()
        key = ('value', t.sexpr())
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append((k, None))
            self.solver.add(t == k)
            self.memo[key] = k
            return k
        vals = []
        self.solver.push()
        while len(vals) <= limit:
            if self.check() != z3.sat:
                break
            v = self.model.eval(t, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(t != v)
        self.solver.pop()
        if len(vals) > limit:
            raise Unsupported('too many values for an index')
        if not vals:
            raise Infeasible()
        vals.sort()
        self.taken.append((vals[0], vals))
        self.solver.add(t == vals[0])
        self.memo[key] = vals[0]
        return vals[0]


def mkbool(f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SBool(f)


def zb(b):
    if isinstance(b, SBool):
        return b.f
    return z3.BoolVal(bool(b))


class SBool:
    def __init__(self, f):
        self.f = f

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return X.truth(self.f)

    def __and__(self, o):
        return mkbool(z3.And(self.f, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.f, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.f, zb(o)))

    def __invert__(self):
        return mkbool(z3.Not(self.f))

    def logical_not(self):
        return mkbool(z3.Not(self.f))

    def _num(self):
        return 1 if X.truth(self.f) else 0

    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __neg__(self): return -self._num()
    def __eq__(self, o): return self._num() == o
    def __hash__(self): return hash(bool(self))
    def __index__(self): return self._num()
    def __int__(self): return self._num()


class SNum:
    __slots__ = ('lin', 'c', 'int')

    def __init__(self, lin, c, is_int):
        self.lin, self.c, self.int = lin, c, is_int

    @property
    def __class__(self):
        return int if self.int else float

    @staticmethod
    def make(lin, c, is_int):
        lin = {a: v for a, v in lin.items() if v != 0}
        if not lin:
            return int(c) if is_int else float(c)
        return SNum(lin, c, is_int)

    def z(self, real=None):
        real = (not self.int) if real is None else real
        terms = []
        for a, v in self.lin.items():
            t, ti = X.atoms[a]
            if real and ti:
                t = z3.ToReal(t)
            terms.append(t if v == 1 else zq(v, real) * t)
        if self.c != 0 or not terms:
            terms.append(zq(self.c, real))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    # -- arithmetic
    def _bin(self, o, s):
        if isinstance(o, SBool) or type(o) is SBool:
            o = o._num()
        if isnum(o):
            isi = self.int and isinstance(o, (int, np.integer, bool, np.bool_)) and not isinstance(o, float)
            return SNum.make(self.lin, self.c + s * frac(o), isi)
        if type(o) is SNum:
            lin = dict(self.lin)
            for a, v in o.lin.items():
                lin[a] = lin.get(a, 0) + s * v
            return SNum.make(lin, self.c + s * o.c, self.int and o.int)
        return NotImplemented

    def __add__(self, o): return self._bin(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, -1)

    def __rsub__(self, o):
        r = self._bin(o, -1)
        return r if r is NotImplemented else -r

    def __neg__(self): return SNum({a: -v for a, v in self.lin.items()}, -self.c, self.int)
    def __pos__(self): return self

    def __mul__(self, o):
        if type(o) is SBool:
            o = o._num()
        if isnum(o):
            f = frac(o)
            isi = self.int and isinstance(o, (int, np.integer, bool, np.bool_))
            return SNum.make({a: v * f for a, v in self.lin.items()}, self.c * f, isi)
        if type(o) is SNum:
            return product(self, o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isnum(o):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            r = self * (1 / frac(o))
            return r if type(r) is not SNum else SNum(r.lin, r.c, False)
        if type(o) is SNum:
            return divide(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if isnum(o):
            return divide(o, self)
        return NotImplemented

    def __floordiv__(self, o):
        if isnum(o) or type(o) is SNum:
            q = quotient(self, o)
            if self.int and (type(o) is SNum and o.int or isinstance(o, (int, np.integer))):
                return q
            return q * 1.0 if type(q) is not SNum else SNum(q.lin, q.c, False)
        return NotImplemented

    def __rfloordiv__(self, o):
        if isnum(o):
            q = quotient(o, self)
            if self.int and isinstance(o, (int, np.integer)):
                return q
            return SNum(q.lin, q.c, False) if type(q) is SNum else float(q)
        return NotImplemented

    def __mod__(self, o):
        if isnum(o) or type(o) is SNum:
            return self - o * quotient(self, o)
        return NotImplemented

    def __rmod__(self, o):
        if isnum(o):
            return o - self * quotient(o, self)
        return NotImplemented

    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __pow__(self, k):
        if isnum(k) and float(k) == int(k) and 0 <= k <= 8:
            r = 1
            for _ in range(int(k)):
                r = r * self
            return r
        if isnum(k) and float(k) == 0.5:
            return self.sqrt()
        return NotImplemented

    def __rpow__(self, b):
        if self.int:
            return b ** X.concretize(self)
        return NotImplemented

    # -- rounding
    def __floor__(self): return quotient(self, 1) if not self.int else self
    def __ceil__(self): return self if self.int else -quotient(-self, 1)

    def __trunc__(self):
        if self.int:
            return self
        return self.__floor__() if (self >= 0) else self.__ceil__()

    def __round__(self, nd=None):
        if self.int:
            return self
        if nd is not None:
            raise Unsupported('round to digits')
        h = self + Fraction(1, 2)
        q = quotient(h, 1)
        if h == q:
            if q % 2 == 1:
                return q - 1
        return q

    def rint(self): return self.__round__()
    def floor(self): return self.__floor__()
    def ceil(self): return self.__ceil__()
    def __abs__(self): return self if (self >= 0) else -self
    def fabs(self): return abs(self)
    def conjugate(self): return self
    def is_integer(self): return self == self.__floor__()
    def item(self): return self

    @property
    def real(self): return self

    # -- comparison
    def _cmp(self, o, op):
        if type(o) is SBool:
            o = o._num()
        if type(o) is SNum:
            real = not (self.int and o.int)
            return mkbool(op(self.z(real), o.z(real)))
        if isnum(o):
            if isinstance(o, float) and (math.isnan(o)):
                return False
            if isinstance(o, float) and math.isinf(o):
                return bool(op(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1)) and z3.is_true(z3.simplify(op(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1)))))
            f = frac(o)
            real = not (self.int and f.denominator == 1)
            return mkbool(op(self.z(real), zq(f, real)))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self): return bool(self != 0)

    def __hash__(self):
        if self.int:
            return hash(X.concretize(self))
        if REAL_HASH:   # all alike: a dictionary then compares, and comparing explores both outcomes
            return 0
        raise Unsupported('hash of a symbolic real')

    def __index__(self):
        if self.int:
            return X.concretize(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        if self.int:
            return X.concretize(self)
        t = self.__trunc__()
        return t if type(t) is int else X.concretize(t)

    def __float__(self): raise Unsupported('float() of a symbolic number')

    def __repr__(self):
        return f'<sym {"int" if self.int else "real"} {self.z()}>'
    __str__ = __repr__

    def __format__(self, spec): return repr(self)

    # -- transcendental
    def cos(self): return Trig.of_angle(self)[0]
    def sin(self): return Trig.of_angle(self)[1]
    def sqrt(self): return Trig.of(self).sqrt()
    def exp(self): return Trig.of(self).exp()
    def arctan2(self, x): return Trig.of(self).arctan2(x)
    def isnan(self): return False


def product(a, b):
    """nonlinear product: distribute over atoms, each product of atoms is an atom"""
    r = 0
    for x, va in list(a.lin.items()) + [(None, a.c)]:
        for y, vb in list(b.lin.items()) + [(None, b.c)]:
            v = va * vb
            if v == 0:
                continue
            if x is None and y is None:
                t = v
                r = r + (int(t) if t.denominator == 1 else t)
                continue
            if x is None or y is None:
                k = y if x is None else x
            else:
                key = ('mul', min(x, y), max(x, y))
                if key not in X.memo:
                    (tx, ix), (ty, iy) = X.atoms[x], X.atoms[y]
                    if ix != iy:
                        tx, ty = (z3.ToReal(tx) if ix else tx), (z3.ToReal(ty) if iy else ty)
                    X.memo[key] = X.atom(tx * ty, ix and iy)
                k = X.memo[key]
            r = SNum({k: v}, Fraction(0), X.atoms[k][1] and v.denominator == 1) + r
    if type(r) is SNum:
        r = SNum(r.lin, r.c, a.int and b.int)
    elif isinstance(r, Fraction):
        r = int(r) if r.denominator == 1 and a.int and b.int else float(r)
    return r


def _key(x):
    if type(x) is SNum:
        return (tuple(sorted(x.lin.items())), x.c, x.int)
    return ('c', frac(x))


def divide(a, b):
    bz = b.z(True) if type(b) is SNum else zq(frac(b), True)
    if type(b) is SNum and not (b != 0):
        raise ZeroDivisionError('division by zero')
    az = a.z(True) if type(a) is SNum else zq(frac(a), True)
    key = ('div', _key(a), _key(b))
    if key not in X.memo:
        t = z3.Real(f'd{len(X.atoms)}')
        X.solver.add(t * bz == az)
        X.memo[key] = X.atom(t, False)
    return SNum({X.memo[key]: Fraction(1)}, Fraction(0), False)


def quotient(a, b):
    """floor(a / b) as an integer form"""
    if isnum(b):
        if b == 0:
            raise ZeroDivisionError('modulo by zero')
        if isnum(a):
            return int(frac(a) // frac(b))
        if a.int and frac(b) == 1:
            return a
    elif not (b != 0):
        raise ZeroDivisionError('modulo by zero')
    key = ('quo', _key(a), _key(b))
    if key in X.memo:
        return SNum({X.memo[key]: Fraction(1)}, Fraction(0), True)
    ints = (isinstance(a, (int, np.integer)) or type(a) is SNum and a.int) and (isinstance(b, (int, np.integer)) or type(b) is SNum and b.int)
    q = z3.Int(f'q{len(X.atoms)}')
    if ints:
        az = a.z() if type(a) is SNum else zq(frac(a), False)
        bz = b.z() if type(b) is SNum else zq(frac(b), False)
        qz = q
    else:
        az = a.z(True) if type(a) is SNum else zq(frac(a), True)
        bz = b.z(True) if type(b) is SNum else zq(frac(b), True)
        qz = z3.ToReal(q)
    pos = z3.And(bz * qz <= az, az < bz * qz + bz)
    neg = z3.And(bz * qz >= az, az > bz * qz + bz)
    if isnum(b):
        X.solver.add(pos if b > 0 else neg)
    else:
        X.solver.add(pos if bool(b > 0) else neg)
    X.memo[key] = X.atom(q, True)
    return SNum({X.memo[key]: Fraction(1)}, Fraction(0), True)


def ite(c, a, b):
    return a if c else b


# ---------------------------------------------------------------- trigonometric series
DI = 5354228880      # lcm(1..24): frequencies of integer atoms are multiples of 1/DI turns
DR = 5040            # frequencies of real atoms are multiples of 1/DR


def turn(x):
    """coefficient (radians per unit) of an integer atom, in units of 1/DI turns"""
    return round((x / TWO_PI) % 1.0 * DI) % DI


class Trig:
    """sum of coef * exp(i (real frequencies . angles)) * monomial ; keys ((atom, coef)..., ((atom, power)...))"""
    __slots__ = ('d',)
    LIMIT = 200000

    def __init__(self, d):
        self.d = d

    @property
    def __class__(self):
        return float

    @staticmethod
    def norm(d):
        d = {k: v for k, v in d.items() if abs(v) > 1e-13}
        if not d:
            return 0.0
        if len(d) == 1 and ((), ()) in d:
            return d[(), ()].real
        if len(d) <= 6 and all(not f and (not m or len(m) == 1 and m[0][1] == 1) for f, m in d):
            return SNum.make({m[0][0]: frac(v.real) for (f, m), v in d.items() if m}, frac(d.get(((), ()), 0j).real), False)
        if len(d) > Trig.LIMIT:
            raise Unsupported('series too long')
        return Trig(d)

    @staticmethod
    def of(x):
        if type(x) is Trig:
            return x
        if isnum(x):
            return Trig({((), ()): complex(float(x))}) if x != 0 else Trig({})
        if type(x) is SNum:
            d = {((), ((a, 1),)): complex(float(v)) for a, v in x.lin.items()}
            if x.c != 0:
                d[(), ()] = complex(float(x.c))
            return Trig(d)
        if type(x) is SBool:
            return Trig.of(x._num())
        raise Unsupported(f'trig of {type(x)}')

    @staticmethod
    def fkey(pairs):
        return tuple(sorted((a, c) for a, c in ((a, c % DI if X.atoms[a][1] else c) for a, c in pairs.items()) if c))

    @staticmethod
    def of_angle(x):
        fr = {}
        for a, v in x.lin.items():
            fr[a] = turn(float(v)) if X.atoms[a][1] else round(float(v) * DR)
        k = Trig.fkey(fr)
        kn = Trig.fkey({a: -c for a, c in fr.items()})
        ph = cmath.exp(1j * (float(x.c) % TWO_PI))
        c, s = {}, {}
        for key, e in ((k, ph), (kn, ph.conjugate())):
            c[key, ()] = c.get((key, ()), 0) + e / 2
        for key, e in ((k, ph / 2j), (kn, -ph.conjugate() / 2j)):
            s[key, ()] = s.get((key, ()), 0) + e
        return Trig.norm(c), Trig.norm(s)

    def _add(self, o, s):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + s * v
        return Trig.norm(d)

    def __add__(self, o):
        try:
            return self._add(Trig.of(o), 1)
        except Unsupported:
            return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        try:
            return self._add(Trig.of(o), -1)
        except Unsupported:
            return NotImplemented

    def __rsub__(self, o):
        try:
            return Trig.of(o)._add(self, -1)
        except Unsupported:
            return NotImplemented

    def __neg__(self): return Trig({k: -v for k, v in self.d.items()})
    def __pos__(self): return self

    def __mul__(self, o):
        if isnum(o):
            if o == 0:
                return 0.0
            return Trig.norm({k: v * float(o) for k, v in self.d.items()})
        try:
            o = Trig.of(o)
        except Unsupported:
            return NotImplemented
        d = {}
        for (f1, m1), v1 in self.d.items():
            for (f2, m2), v2 in o.d.items():
                if f1 and f2:
                    fr = dict(f1)
                    for a, c in f2:
                        fr[a] = fr.get(a, 0) + c
                    f = Trig.fkey(fr)
                else:
                    f = f1 or f2
                if m1 and m2:
                    mm = dict(m1)
                    for a, c in m2:
                        mm[a] = mm.get(a, 0) + c
                    m = tuple(sorted(mm.items()))
                else:
                    m = m1 or m2
                d[f, m] = d.get((f, m), 0) + v1 * v2
        return Trig.norm(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isnum(o):
            return self * (1.0 / float(o))
        raise Unsupported('division by a series')

    def __rtruediv__(self, o): raise Unsupported('division by a series')

    def __pow__(self, k):
        if isinstance(k, np.ndarray):
            out = np.empty(k.shape, dtype=object)
            for i in np.ndindex(*k.shape):
                out[i] = self ** k[i]
            return out
        if isnum(k) and float(k) == int(k) and 0 <= k <= 32:
            r = 1.0
            for _ in range(int(k)):
                r = r * self
            return r
        if isnum(k) and float(k) == 0.5:
            return self.sqrt()
        raise Unsupported('power of a series')

    def sqrt(self):
        if len(self.d) == 1:
            (f, m), v = next(iter(self.d.items()))
            if not f and abs(v.imag) < 1e-12 and v.real >= 0 and all(p % 2 == 0 for _, p in m):
                for a, p in m:
                    # the root of x^2 is |x|: only accepted where the path says x >= 0
                    if X.check(X.atoms[a][0] < 0) != z3.unsat:
                        raise Unsupported('root of a square of unknown sign')
                return Trig.norm({((), tuple((a, p // 2) for a, p in m)): complex(math.sqrt(v.real))})
        raise Unsupported('sqrt of a series')

    def exp(self):
        key = ('exp', tuple(sorted((k, round(v.real, 9), round(v.imag, 9)) for k, v in self.d.items())))
        if key not in X.memo:
            t = z3.Real(f'exp{len(X.atoms)}')
            X.solver.add(t > 0)
            if not any(f for f, m in self.d):
                arg = z3.Sum([zq(frac(v.real), True) * z3.Product([z3.RealVal(1)] + [(z3.ToReal(X.atoms[a][0]) if X.atoms[a][1] else X.atoms[a][0]) for a, p in m for _ in range(p)]) for (f, m), v in self.d.items()])
                if X.check(arg > zq(frac(1e-9), True)) == z3.unsat:
                    X.solver.add(t <= zq(frac(1.001), True))
            X.memo[key] = X.atom(t, False)
            X.memo['expdef', X.memo[key]] = self
        return SNum({X.memo[key]: Fraction(1)}, Fraction(0), False)

    def polar(self):
        """(amplitude monomial, frequency, complex coef) if self = Re(2 c e^{i f.x}) * monomial, else None"""
        ks = list(self.d.items())
        if len(ks) == 2:
            ((f1, m1), v1), ((f2, m2), v2) = ks
            if m1 == m2 and Trig.fkey({a: -c for a, c in f1}) == f2 and abs(v1 - v2.conjugate()) < 1e-9:
                return m1, f1, v1
        return None

    def arctan2(self, x):
        """angle of (x, self) when both are amplitude * (cos, sin) of one linear form; exact up to a multiple of 2 pi"""
        x = Trig.of(x)
        py, px = self.polar(), x.polar()
        if py is None or px is None or py[0] != px[0] or set(dict(px[1])) != set(dict(py[1])):
            raise Unsupported('arctan2')
        m, f, c = px
        if py[1] == f:
            s = py[2]
        elif Trig.fkey({a: -v for a, v in f}) == py[1]:
            s = py[2].conjugate()
        else:
            raise Unsupported('arctan2')
        # x = 2|c| cos(f + arg c), y = sin(...) needs s = +- c / i
        if abs(s - c / 1j) < 1e-9:
            sg = 1
        elif abs(s + c / 1j) < 1e-9:
            sg = -1
        else:
            raise Unsupported('arctan2')
        cen = lambda v: v if v <= DI // 2 else v - DI
        ang = SNum.make({a: sg * (frac(TWO_PI * cen(v) / DI) if X.atoms[a][1] else Fraction(v, DR)) for a, v in f}, frac(sg * cmath.phase(c)), False)
        key = ('turn', _key(ang))
        if key not in X.memo:
            q = z3.Int(f'q{len(X.atoms)}')
            S = frac(TWO_PI)
            t = ang.z(True) + zq(S, True) * z3.ToReal(q)
            X.solver.add(t <= zq(S / 2, True), t > zq(-S / 2, True))
            X.memo[key] = X.atom(q, True)
        return ang + SNum({X.memo[key]: Fraction(1)}, Fraction(0), True) * TWO_PI

    def isnan(self): return False
    def conjugate(self): return self
    def item(self): return self
    def __hash__(self): raise Unsupported('hash of a series')
    def __float__(self): raise Unsupported('float() of a series')
    def __int__(self): raise Unsupported('int() of a series')
    def __bool__(self): raise Unsupported('branch on a series')

    def _cmp(self, o):
        # decided only where it follows from the bound on the terms
        D = Trig.of(self - o if not isnum(o) or o != 0 else self)
        c = D.d.get(((), ()), 0j).real
        r = sum(abs(v) for k, v in D.d.items() if k != ((), ()) and not k[1])
        if any(k[1] for k in D.d):
            r = float('inf')
        return c - r, c + r

    def __lt__(self, o):
        lo, hi = self._cmp(o)
        if hi < 0: return True
        if lo >= 0: return False
        raise Unsupported('comparison of a series')

    def __gt__(self, o):
        lo, hi = self._cmp(o)
        if lo > 0: return True
        if hi <= 0: return False
        raise Unsupported('comparison of a series')

    def __le__(self, o): return not (self > o)
    def __ge__(self, o): return not (self < o)

    def __eq__(self, o):
        D = self - o
        if isnum(D):
            return abs(D) < 1e-13
        raise Unsupported('equality of a series')

    def __ne__(self, o): return not (self == o)

    def __abs__(self):
        return abs(self._value()) if self._value() is not None else self._abs()

    def _value(self): return None

    def _abs(self):
        lo, hi = self._cmp(0)
        if lo >= 0: return self
        if hi <= 0: return -self
        raise Unsupported('abs of a series')

    def __repr__(self):
        return f'<trig {len(self.d)} terms>'

    def evaluate(self, vals):
        """vals: atom -> float"""
        r = 0
        for (f, m), v in self.d.items():
            t = v
            for a, c in f:
                t *= cmath.exp(1j * vals[a] * (c * TWO_PI / DI if X.atoms[a][1] else c / DR))
            for a, p in m:
                t *= vals[a] ** p
            r += t
        return r.real


def symbolic(x):
    return type(x) in (SNum, SBool, Trig)


def anysym(x):
    if symbolic(x):
        return True
    if isinstance(x, np.ndarray) and type(x) is not SNum:
        return x.dtype == object and any(symbolic(v) for v in x.flat)
    if type(x) in (list, tuple):
        return any(anysym(v) for v in x)
    return False


# ---------------------------------------------------------------- shims
def _caller_e2cnn():
    return str(sys._getframe(2).f_globals.get('__name__', '')).startswith('e2cnn')


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and type(a[0]) is SNum:
            return a[0].__trunc__()
        return int(*a, **k)


class IntShim(int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, float)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __call__(cls, *a, **k):
        if len(a) == 1 and type(a[0]) is SNum:
            return SNum(a[0].lin, a[0].c, False)
        if len(a) == 1 and type(a[0]) is Trig:
            return a[0]
        return float(*a, **k)


class FloatShim(float, metaclass=_FloatMeta):
    pass


def _absdiff(a, b):
    d = a - b
    return d


def isclose_f(a, b, rel, ab):
    """|a-b| <= max(rel*max(|a|,|b|), ab)"""
    az, bz = (v.z(True) if type(v) is SNum else zq(frac(v), True) for v in (a, b))
    A = lambda t: z3.If(t >= 0, t, -t)
    d = A(az - bz)
    r = zq(frac(rel), True)
    return mkbool(z3.Or(d <= r * A(az), d <= r * A(bz), d <= zq(frac(ab), True)))


def np_isclose_f(a, b, rtol, atol):
    if type(a) is Trig or type(b) is Trig:
        D = a - b
        if isnum(D):
            return abs(D) <= atol + 1e-12
        raise Unsupported('isclose of a series')
    az, bz = (v.z(True) if type(v) is SNum else zq(frac(v), True) for v in (a, b))
    A = lambda t: z3.If(t >= 0, t, -t)
    return mkbool(A(az - bz) <= zq(frac(atol), True) + zq(frac(rtol), True) * A(bz))


@contextlib.contextmanager
def shims():
    """make the numeric library calls of the code under test accept proxies"""
    import scipy.sparse as sparse
    saved = []

    def patch(obj, name, new):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    o_isclose = math.isclose
    _o_array = np.array

    def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if symbolic(a) or symbolic(b):
            return isclose_f(a, b, rel_tol, abs_tol)
        return o_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    patch(math, 'isclose', m_isclose)
    for nm, meth in (('fabs', abs), ('cos', lambda v: v.cos()), ('sin', lambda v: v.sin()), ('sqrt', lambda v: v.sqrt()), ('exp', lambda v: v.exp()), ('isnan', lambda v: False)):
        o = getattr(math, nm)
        patch(math, nm, lambda v, o=o, meth=meth: meth(v) if symbolic(v) else o(v))
    o_fmod = math.fmod

    def fmod(a, b):
        if symbolic(a) or symbolic(b):
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        return o_fmod(a, b)
    patch(math, 'fmod', fmod)

    for nm in ('empty', 'zeros', 'ones'):
        o = getattr(np, nm)
        fill = {'empty': 0.0, 'zeros': 0.0, 'ones': 1.0}[nm]

        def f(shape, dtype=float, *a, _o=o, _fill=fill, **k):
            if dtype in (float, np.float64, np.float32, FloatShim, object) and _caller_e2cnn():
                r = _o(shape, dtype=object)
                r[...] = _fill
                return r
            return _o(shape, dtype, *a, **k)
        patch(np, nm, f)
    for nm in ('empty_like', 'zeros_like', 'ones_like'):
        o = getattr(np, nm)
        fill = 1.0 if nm == 'ones_like' else 0.0

        def f(x, *a, _o=o, _fill=fill, **k):
            if _caller_e2cnn() and k.get('dtype', np.asarray(x).dtype) not in (bool, int):
                r = np.full(np.shape(x), _fill, dtype=object)
                return r
            return _o(x, *a, **k)
        patch(np, nm, f)
    for nm in ('array', 'asarray', 'cumsum', 'sum', 'diff'):
        o = getattr(np, nm)

        def f(x, *a, _o=o, _nm=nm, **k):
            if not isinstance(x, np.ndarray) and isinstance(x, (list, tuple)) and _caller_e2cnn() and anysym(x):
                if _nm in ('array', 'asarray'):
                    a, k = a[1:], {**k, 'dtype': object}
                else:
                    k = {**k, 'dtype': object} if _nm != 'diff' else k
                    x = _o_array(x, dtype=object)
            return _o(x, *a, **k)
        patch(np, nm, f)
    o_isnan = np.isnan

    def isnan(x, *a, **k):
        if symbolic(x):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([isinstance(v, float) and not symbolic(v) and v != v for v in x.flat], dtype=bool).reshape(x.shape)
        return o_isnan(x, *a, **k)
    patch(np, 'isnan', isnan)
    o_close, o_all = np.isclose, np.allclose

    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if anysym(a) or anysym(b):
            aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(aa.shape, dtype=object)
            for i in np.ndindex(aa.shape):
                r[i] = np_isclose_f(aa[i], bb[i], rtol, atol)
            return r[()] if r.shape == () else r
        if np.asarray(a).dtype == object or np.asarray(b).dtype == object:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return o_close(a, b, rtol=rtol, atol=atol, **k)

    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        r = isclose(a, b, rtol, atol)
        return all(bool(v) for v in np.asarray(r, dtype=object).flat)
    patch(np, 'isclose', isclose)
    patch(np, 'allclose', allclose)
    o_bd = sparse.block_diag

    def block_diag(mats, format=None, dtype=None):
        mats = list(mats)
        if any(anysym(m) for m in mats):
            import scipy.linalg
            return scipy.linalg.block_diag(*[np.asarray(m, dtype=object) for m in mats])
        return o_bd(mats, format=format, dtype=dtype)
    patch(sparse, 'block_diag', block_diag)
    for nm in ('cos', 'sin', 'exp', 'sqrt', 'abs', 'absolute', 'fabs', 'tan', 'floor', 'ceil', 'rint'):
        o = getattr(np, nm)

        def f(x, *a, _o=o, _nm=nm, **k):
            if symbolic(x) or isinstance(x, np.ndarray) and x.dtype == object:
                g = (lambda v: abs(v)) if _nm in ('abs', 'absolute', 'fabs') else (lambda v: getattr(v, _nm)())
                xx = np.asarray(x, dtype=object)
                r = np.full(xx.shape, None, dtype=object)
                for i in np.ndindex(xx.shape):
                    v = xx[i]
                    r[i] = g(v) if symbolic(v) else float(_o(float(v)))
                out = k.get('out', a[0] if a else None)
                if out is not None:
                    out[...] = r
                    return out
                return r[()] if r.shape == () else r
            return _o(x, *a, **k)
        patch(np, nm, f)
    o_at = np.arctan2

    def arctan2(y, x, *a, **k):
        if anysym(y) or anysym(x) or getattr(y, 'dtype', None) == object or getattr(x, 'dtype', None) == object:
            yy, xx = np.broadcast_arrays(np.asarray(y, dtype=object), np.asarray(x, dtype=object))
            r = np.full(xx.shape, None, dtype=object)
            for i in np.ndindex(xx.shape):
                u, v = yy[i], xx[i]
                r[i] = Trig.of(u).arctan2(v) if symbolic(u) or symbolic(v) else math.atan2(u, v)
            return r[()] if r.shape == () else r
        return o_at(y, x, *a, **k)
    patch(np, 'arctan2', arctan2)
    glob = []
    for name, mod in list(sys.modules.items()):
        if name.startswith('e2cnn') and mod is not None:
            for k, v in (('int', IntShim), ('float', FloatShim)):
                if k not in vars(mod):
                    vars(mod)[k] = v
                    glob.append((mod, k))
    try:
        yield
    finally:
        for mod, k in glob:
            vars(mod).pop(k, None)
        for obj, name, old in reversed(saved):
            setattr(obj, name, old)


REAL_HASH = []


@contextlib.contextmanager
def real_hash():
    """symbolic reals may be keys of dictionaries"""
    REAL_HASH.append(1)
    try:
        yield
    finally:
        REAL_HASH.pop()


# ---------------------------------------------------------------- environment and obligations
class Env:
    def __init__(self, sym, values=None, rng=None):
        self.symbolic = sym
        self.values = values or {}
        self.rng = rng
        self.used = {}

    def _num(self, name, lo, hi, is_int):
        if name in self.used:
            return self.used[name]
        if not self.symbolic:
            if name in self.values:
                v = self.values[name]
            elif is_int:
                v = self.rng.randint(lo, hi)
            else:
                v = self.rng.uniform(lo, hi) if self.rng.random() < .7 else self.rng.choice([lo, hi, 0.0 if lo <= 0 <= hi else lo, (lo + hi) / 2])
            v = int(v) if is_int else float(v)
            self.used[name] = v
            return v
        t = z3.Int(name) if is_int else z3.Real(name)
        a = X.atom(t, is_int)
        if lo is not None:
            X.solver.add(t >= zq(frac(lo), not is_int))
        if hi is not None:
            X.solver.add(t <= zq(frac(hi), not is_int))
        v = SNum({a: Fraction(1)}, Fraction(0), is_int)
        X.vars[name] = (a, lo, hi, is_int)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._num(name, lo, hi, True)

    def real(self, name, lo, hi):
        return self._num(name, lo, hi, False)

    def choose(self, name, options):
        """a symbolic choice, resolved by forking"""
        i = self.int(name, 0, len(options) - 1)
        return options[X.concretize(i) if type(i) is SNum else i]

    def assume(self, b):
        if self.symbolic:
            f = zb(b)
            X.solver.add(f)
            if X.check() == z3.unsat:
                raise Infeasible()
        elif not bool(b):
            raise Infeasible()

    @contextlib.contextmanager
    def run(self):
        if self.symbolic:
            with shims():
                yield
        else:
            yield


class Holds:
    """a boolean (possibly symbolic) which must be true"""

    def __init__(self, label, value, detail=''):
        self.label, self.value, self.detail = label, value, detail


class Zero:
    """an array or scalar (numbers, forms or series) which must vanish"""

    def __init__(self, label, value, tol=1e-6):
        self.label, self.value, self.tol = label, value, tol


def Same(label, a, b, tol=1e-6):
    sa, sb = np.shape(np.asarray(a, dtype=object)), np.shape(np.asarray(b, dtype=object))
    if sa != sb:
        return Holds(label, False, f'shape {sa} != {sb}')
    return Zero(label, np.asarray(a, dtype=object) - np.asarray(b, dtype=object), tol)


class Implies:
    def __new__(cls, label, a, b, detail=''):
        if symbolic(a) or symbolic(b):
            return Holds(label, mkbool(z3.Implies(zb(a), zb(b))), detail)
        return Holds(label, (not a) or bool(b), detail)


def Not(b):
    return mkbool(z3.Not(zb(b))) if symbolic(b) else (not b)


def And(*bs):
    return mkbool(z3.And([zb(b) for b in bs])) if any(symbolic(b) for b in bs) else all(bs)


def Or(*bs):
    return mkbool(z3.Or([zb(b) for b in bs])) if any(symbolic(b) for b in bs) else any(bs)


def Iff(a, b):
    return mkbool(zb(a) == zb(b)) if symbolic(a) or symbolic(b) else bool(a) == bool(b)


def check_value(v, tol):
    """True if |v| <= tol for all values on the current path"""
    if isnum(v):
        return abs(float(v)) <= tol if not isinstance(v, float) or v == v else False
    if type(v) is SNum:
        t = v.z(True)
        return X.check(z3.Or(t > zq(frac(tol), True), t < zq(frac(-tol), True))) == z3.unsat
    return trig_zero([v], tol)


def trig_zero(vs, tol, subst=None):
    """z3 (linear real arithmetic): each cosine, sine and monomial is an independent unknown in [-1, 1]"""
    s = z3.Solver()
    s.set('timeout', 20000)
    names = {}
    disj = []
    for v in vs:
        terms = []
        for (f, m), c in Trig.of(v).d.items():
            ST.terms += 1
            if not f and not m:
                terms.append(zq(frac(c.real), True))
                continue
            n = Trig.fkey({a: -w for a, w in f})
            k, sg = ((f, m), 1) if f >= n else ((n, m), -1)
            if k not in names:
                i = len(names)
                C, S = z3.Real(f'c{i}'), z3.Real(f's{i}')
                s.add(C >= -1, C <= 1, S >= -1, S <= 1)
                names[k] = (C, S)
            C, S = names[k]
            if f == n:
                terms.append(zq(frac(c.real), True) * C)
            else:
                terms.append(zq(frac(c.real), True) * C)
                terms.append(zq(frac(-sg * c.imag), True) * S)
        if terms:
            t = z3.Sum(terms)
            disj.append(z3.Or(t > zq(frac(tol), True), t < zq(frac(-tol), True)))
    if not disj:
        return True
    s.add(z3.Or(disj))
    t0 = time.time()
    r = s.check()
    ST.solver_s += time.time() - t0
    ST.queries += 1
    if r == z3.unsat:
        ST.unsat += 1
    elif r == z3.sat:
        ST.sat += 1
    else:
        ST.unknown += 1
    return r == z3.unsat


def forced_values(terms):
    """integer atoms used in the series whose value the path determines"""
    used = set()
    for v in terms:
        for (f, m) in v.d:
            used |= {a for a, _ in f if X.atoms[a][1]} | {a for a, _ in m if X.atoms[a][1]}
    return used


def decide_zero(values, tol):
    """values: list of forms/series. returns None (proved) or a list of extra constraints describing where it may fail"""
    nums = [v for v in values if isnum(v)]
    if any(not (abs(float(v)) <= tol) for v in nums):
        return [z3.BoolVal(True)]
    lin = [v for v in values if type(v) is SNum]
    if lin:
        bad = [z3.Or(v.z(True) > zq(frac(tol), True), v.z(True) < zq(frac(-tol), True)) for v in lin]
        if X.check(z3.Or(bad)) != z3.unsat:
            return [z3.Or(bad)]
    tr = [v for v in values if type(v) is Trig]
    if tr:
        if not trig_zero(tr, tol):
            ints = sorted(forced_values(tr))
            if ints and len(ints) <= 24:
                return enum_ints(tr, tol, ints)
            return [z3.BoolVal(True)]
    return None


def enum_ints(tr, tol, ints, limit=256):
    """the identity may only hold for the integers the path allows: decide it for each of their values"""
    X.solver.push()
    try:
        n = 0
        while True:
            if X.check() != z3.sat:
                return None
            m = X.model
            vals = {a: m.eval(X.atoms[a][0], model_completion=True).as_long() for a in ints}
            n += 1
            if n > limit:
                return [z3.BoolVal(True)]
            sub = [substitute(v, vals) for v in tr]
            conj = z3.And([X.atoms[a][0] == v for a, v in vals.items()])
            for v in sub:
                if isnum(v):
                    if abs(v) > tol:
                        return [conj]
            rest = [v for v in sub if type(v) is Trig]
            if rest and not trig_zero(rest, tol):
                return [conj]
            X.solver.add(z3.Not(conj))
    finally:
        X.solver.pop()


def substitute(v, vals):
    d = {}
    for (f, m), c in v.d.items():
        nf, nm = [], []
        for a, w in f:
            if a in vals:
                c = c * cmath.exp(1j * TWO_PI * ((w * vals[a]) % DI) / DI)
            else:
                nf.append((a, w))
        for a, p in m:
            if a in vals:
                c = c * vals[a] ** p
            else:
                nm.append((a, p))
        k = (tuple(nf), tuple(nm))
        d[k] = d.get(k, 0) + c
    return Trig.norm(d)


def models(extra, rng, k=12):
    """concrete values of the named variables on the current path"""
    out = []
    X.solver.push()
    try:
        for e in extra:
            X.solver.add(e)
        for i in range(k):
            X.solver.push()
            if i:
                for n, (a, lo, hi, is_int) in X.vars.items():
                    t = X.atoms[a][0]
                    if lo is None or hi is None or rng.random() < .3:
                        continue
                    if is_int:
                        v = rng.randint(int(lo), int(hi))
                        f = t == v
                    else:
                        a0, b0 = sorted((rng.uniform(lo, hi), rng.uniform(lo, hi)))
                        f = z3.And(t >= zq(frac(a0), True), t <= zq(frac(b0), True))
                    X.solver.push()
                    X.solver.add(f)
                    if X.check() != z3.sat:
                        X.solver.pop()
                        continue
            if X.check() == z3.sat:
                m = X.model
                vals = {}
                for n, (a, lo, hi, is_int) in X.vars.items():
                    v = m.eval(X.atoms[a][0], model_completion=True)
                    vals[n] = v.as_long() if is_int else float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
                out.append(vals)
            while X.solver.num_scopes() > 1:
                X.solver.pop()
    finally:
        while X.solver.num_scopes() > 0:
            X.solver.pop()
    return out


def concrete(fn, values, rng):
    E = Env(False, values, rng)
    obs = fn(E)
    bad = []
    for o in obs:
        if isinstance(o, Holds):
            if not bool(o.value):
                bad.append((o.label, o.detail or 'does not hold'))
        else:
            v = np.asarray(o.value, dtype=object)
            if v.size == 0:
                continue
            f = np.array([float(t) for t in v.flat])
            if np.isnan(f).any() or np.abs(f).max() > o.tol:
                bad.append((o.label, f'off by {np.nanmax(np.abs(f)):.4g}'))
    return bad, E.used


def run_case(name, fn, seed=1, max_paths=4000, time_limit=200, samples=3):
    """explores every path of fn and decides the obligations on each; returns a result dict"""
    global X, ST
    import random
    ST = Stats()
    rng = random.Random(seed)
    t0 = time.time()
    res = dict(case=name, verdict='proved', obligations=0, detail='', tiers={})
    labels = set()
    work = [[]]
    viol = None

    def try_values(cands):
        for vals in cands:
            try:
                bad, used = concrete(fn, vals, rng)
            except Infeasible:
                continue
            except Exception as e:
                bad, used = [('exception', f'{type(e).__name__}: {e}')], vals
                res['trace'] = traceback.format_exc()[-2000:]
            if bad:
                return bad[0][0], bad[0][1], {k: v for k, v in vals.items()}
        return None

    while work and viol is None:
        prefix = work.pop()
        X = Exec(prefix)
        E = Env(True)
        ST.paths += 1
        exc = None
        obs = []
        try:
            obs = fn(E)
        except Infeasible:
            obs = None
        except Unsupported as e:
            exc = ('unsupported', e)
        except Exception as e:
            exc = ('exception', e)
            res['trace'] = traceback.format_exc()[-2500:]
        for i in range(len(prefix), len(X.taken)):
            k, feas = X.taken[i]
            for other in (feas or [])[::-1]:
                if other != k:
                    work.append([c for c, _ in X.taken[:i]] + [other])
        if obs is None:
            continue
        if exc is not None:
            # the run stopped: does the real code fail on concrete values of this path?
            viol = try_values(models([], rng))
            if viol is None:
                res['verdict'] = 'inconclusive'
                res['detail'] = f'{exc[0]}: {type(exc[1]).__name__}: {exc[1]}'
                if len(work) > 0 and exc[0] == 'unsupported' and ST.paths > 50:
                    break
            continue
        for o in obs:
            res['obligations'] += 1
            labels.add(o.label)
            if isinstance(o, Holds):
                v = o.value
                if isinstance(v, np.bool_):
                    v = bool(v)
                if type(v) is SBool:
                    r = X.check(z3.Not(v.f))
                    where = None if r == z3.unsat else [z3.Not(v.f)]
                    if r == z3.unknown:
                        where = [z3.BoolVal(True)]
                else:
                    where = None if v else [z3.BoolVal(True)]
            else:
                vals = [t for t in np.asarray(o.value, dtype=object).flat]
                where = decide_zero(vals, o.tol)
            if where is None:
                res['tiers']['z3'] = res['tiers'].get('z3', 0) + 1
                if not res.get('witness') and X.check() == z3.sat:
                    res['witness'] = True
                continue
            viol = try_values(models(where, rng, 6) + models([], rng, 6))
            if viol:
                break
            res['verdict'] = 'inconclusive'
            res['detail'] = f'{o.label}: counterexample did not reproduce'
        if ST.paths > max_paths or time.time() - t0 > time_limit:
            if work and viol is None:
                res['verdict'] = 'inconclusive'
                res['detail'] = 'path limit'
            break
    if viol is None:
        # validation of the harness: the same assertions on concrete values of the real code
        for _ in range(samples):
            viol = try_values([{}])
            if viol:
                break
    if viol:
        res['verdict'] = 'violated'
        res['label'], res['detail'], res['values'] = viol
    res['stats'] = ST.d()
    res['paths'] = ST.paths
    res['vars'] = len(X.vars) if X else 0
    res['labels'] = sorted(labels)[:20]
    res['wall_s'] = round(time.time() - t0, 3)
    return res


def case(fn, **kw):
    """wrap a function of Env into a custom case of the runner"""
    def go(name, seed):
        return run_case(name, fn, seed, **kw)
    go.pe = fn
    return go
