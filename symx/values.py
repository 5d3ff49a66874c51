"""Proxy values: SymBool, SymInt, SymReal.

They are not subclasses of int/bool (so no C routine can read a bogus hidden
value), but answer ``isinstance(x, int)`` through ``__class__``.  Whatever
needs a real machine value (``__index__``, hashing, ...) forks exhaustively.
"""
from __future__ import annotations

from fractions import Fraction

from .core import Unsupported, current
from .z3load import z3


def is_sym(x):
    return type(x) in (SymInt, SymReal, SymBool)


def term_of(x):
    """z3 term for a Python number or proxy; None if it is not a number."""
    t = type(x)
    if t in (SymInt, SymReal):
        return x._t
    if t is SymBool:
        return z3.If(x._t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    return None


def wrap(t):
    if z3.is_bool(t):
        return SymBool(t)
    if t.sort() == z3.IntSort():
        return SymInt(t)
    return SymReal(t)


def lift(t):
    """Like wrap, but hand back a plain value when the term is constant."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return wrap(t)


def unify(a, b):
    ai, bi = a.sort() == z3.IntSort(), b.sort() == z3.IntSort()
    if ai and not bi:
        a = z3.ToReal(a)
    if bi and not ai:
        b = z3.ToReal(b)
    return a, b


def bterm(x):
    if type(x) is SymBool:
        return x._t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def And(*xs):
    return mkbool(z3.And(*[bterm(x) for x in xs])) if xs else True


def Or(*xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs])) if xs else False


def Not(x):
    return mkbool(z3.Not(bterm(x)))


def Implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def Iff(a, b):
    return mkbool(bterm(a) == bterm(b))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def Ite(c, a, b):
    c = z3.simplify(bterm(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ta, tb = unify(term_of(a), term_of(b))
    return lift(z3.If(c, ta, tb))


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def Max(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def ceil_div(a, b):
    """The specification's ceiling division (b > 0)."""
    if is_sym(a) or is_sym(b):
        ta, tb = term_of(a), term_of(b)
        return lift((ta + tb - 1) / tb)
    return -((-a) // b)


class SymBool:
    __slots__ = ("_t",)

    def __init__(self, t):
        self._t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return current().fork(self._t)

    def __repr__(self):
        return "<sym bool>"

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(self._t == bterm(o))
        return self._i().__eq__(o)

    def __ne__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(self._t != bterm(o))
        return self._i().__ne__(o)

    def _i(self):
        return SymInt(z3.If(self._t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(z3.And(self._t, bterm(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(z3.Or(self._t, bterm(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(z3.Xor(self._t, bterm(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o


def _arith(op):
    def f(self, o):
        b = term_of(o)
        if b is None:
            return NotImplemented
        a, b = unify(self._t, b)
        return lift(op(a, b))

    return f


def _cmp(op):
    def f(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[
                op
            ]
        b = term_of(o)
        if b is None:
            return NotImplemented
        a, b = unify(self._t, b)
        return mkbool(
            {
                "lt": lambda: a < b,
                "le": lambda: a <= b,
                "gt": lambda: a > b,
                "ge": lambda: a >= b,
                "eq": lambda: a == b,
                "ne": lambda: a != b,
            }[op]()
        )

    return f


def _floordiv_terms(a, b):
    """Python floor division on z3 Int terms (forks on the divisor's sign)."""
    ctx = current()
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return a / b if bv > 0 else (-a) / (-b)
    if ctx.fork(b > 0):
        return a / b
    if ctx.fork(b < 0):
        return (-a) / (-b)
    raise ZeroDivisionError("integer division or modulo by zero")


def _floordiv(a, b):
    ta, tb = unify(a, b)
    if ta.sort() == z3.IntSort():
        return lift(_floordiv_terms(ta, tb))
    if current().fork(tb == 0):
        raise ZeroDivisionError("float floor division by zero")
    return SymReal(z3.ToReal(z3.ToInt(ta / tb)))


def _mod(a, b):
    ta, tb = unify(a, b)
    if ta.sort() == z3.IntSort():
        q = _floordiv_terms(ta, tb)
        return lift(ta - tb * q)
    if current().fork(tb == 0):
        raise ZeroDivisionError("float modulo")
    return SymReal(ta - tb * z3.ToReal(z3.ToInt(ta / tb)))


def _truediv(a, b):
    ta, tb = a, b
    if ta.sort() == z3.IntSort():
        ta = z3.ToReal(ta)
    if tb.sort() == z3.IntSort():
        tb = z3.ToReal(tb)
    if current().fork(tb == 0):
        raise ZeroDivisionError("division by zero")
    # Exact rational arithmetic where Python would round to a double: any
    # counterexample is replayed concretely, and for integers beyond 2**53 the
    # result is over-approximated so that a rounding-induced failure is found.
    return approx_double(ta / tb)


def approx_double(t):
    """A real within one double rounding of ``t``."""
    ctx = current()
    ctx.fresh_n += 1
    r = z3.Real("dbl!%d" % ctx.fresh_n)
    a = z3.If(t >= 0, t, -t)
    eps = z3.RealVal("1/9007199254740992")
    ctx.constrain(r - t <= a * eps)
    ctx.constrain(t - r <= a * eps)
    # small integers and halves are exact
    small = a <= 2 ** 53
    ctx.constrain(
        z3.Implies(z3.And(small, z3.ToReal(z3.ToInt(t)) == t), r == t)
    )
    # rounding is monotone: it never crosses an exactly representable integer
    fl = z3.ToReal(z3.ToInt(t))
    ctx.constrain(z3.Implies(small, z3.And(r >= fl, r <= fl + 1)))
    return SymReal(r)


class _Num:
    __slots__ = ()

    def __hash__(self):
        return hash(current().concretise(self._t))

    def __bool__(self):
        return current().fork(self._t != 0)

    def __repr__(self):
        return "<sym %s>" % (self._t,)

    def __str__(self):
        if current().opaque_text:
            return "<number>"
        return str(current().concretise(self._t, limit=16))

    def __format__(self, spec):
        if current().opaque_text:
            return "<number>"
        return format(current().concretise(self._t, limit=16), spec)

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: b + a)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: b - a)

    def __mul__(self, o):
        b = term_of(o)
        if b is None:
            if isinstance(o, (list, tuple, bytes, str)):
                return o * current().concretise(self._t)
            return NotImplemented
        a, b = unify(self._t, b)
        return lift(a * b)

    __rmul__ = __mul__
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __neg__(self):
        return lift(-self._t)

    def __pos__(self):
        return self

    def __abs__(self):
        return lift(z3.If(self._t >= 0, self._t, -self._t))

    def __floordiv__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _floordiv(self._t, b)

    def __rfloordiv__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _floordiv(b, self._t)

    def __mod__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _mod(self._t, b)

    def __rmod__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _mod(b, self._t)

    def __divmod__(self, o):
        b = term_of(o)
        if b is None:
            return NotImplemented
        return (_floordiv(self._t, b), _mod(self._t, b))

    def __rdivmod__(self, o):
        b = term_of(o)
        if b is None:
            return NotImplemented
        return (_floordiv(b, self._t), _mod(b, self._t))

    def __truediv__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _truediv(self._t, b)

    def __rtruediv__(self, o):
        b = term_of(o)
        return NotImplemented if b is None else _truediv(b, self._t)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and not is_sym(o) and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        current().abort(Unsupported("** on a symbolic value"))

    def __reduce__(self):
        raise TypeError("symbolic values cannot be pickled")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(_Num):
    __slots__ = ("_t",)

    def __init__(self, t):
        self._t = t

    @property
    def __class__(self):
        return int

    def __index__(self):
        return current().concretise(self._t)

    def __int__(self):
        return current().concretise(self._t)

    def __float__(self):
        return float(current().concretise(self._t))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        current().abort(Unsupported("round to a negative digit"))

    def bit_length(self):
        return current().concretise(self._t).bit_length()

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __lshift__(self, o):
        if is_sym(o):
            o = current().concretise(o._t)
        return self * (1 << o)

    def __rshift__(self, o):
        if is_sym(o):
            o = current().concretise(o._t)
        return self // (1 << o)

    def __rlshift__(self, o):
        return o << current().concretise(self._t)

    def __rrshift__(self, o):
        return o >> current().concretise(self._t)

    def __and__(self, o):
        if isinstance(o, int) and not is_sym(o) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return current().concretise(self._t) & o

    __rand__ = __and__

    def __or__(self, o):
        return current().concretise(self._t) | o

    __ror__ = __or__

    def __xor__(self, o):
        return current().concretise(self._t) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def to_bytes(self, *a, **kw):
        return current().concretise(self._t).to_bytes(*a, **kw)


class SymReal(_Num):
    __slots__ = ("_t",)

    def __init__(self, t):
        if t.sort() == z3.IntSort():
            t = z3.ToReal(t)
        self._t = t

    @property
    def __class__(self):
        return float

    def __float__(self):
        return float(current().concretise(self._t))

    def trunc(self):
        t = self._t
        return lift(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    __trunc__ = trunc

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) and not is_sym(r) else current().concretise(r._t)

    def __floor__(self):
        return lift(z3.ToInt(self._t))

    def __ceil__(self):
        return lift(-z3.ToInt(-self._t))

    def __round__(self, n=None):
        if n is None:
            # round half to even
            fl = z3.ToInt(self._t)
            d = self._t - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            return lift(
                z3.If(
                    d < half,
                    fl,
                    z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)),
                )
            )
        current().abort(Unsupported("round(x, n)"))

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self._t)) == self._t)


# -- shims for builtins that insist on machine values -------------------------


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class IntShim(int, metaclass=_IntMeta):
    def __new__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) is SymReal:
                return x.trunc()
            if type(x) is SymBool:
                return x._i()
            if type(x).__name__ == "NumText":
                return x.n
        return int(*a, **kw)

    @staticmethod
    def from_bytes(x, byteorder="big", *, signed=False):
        from .symbytes import from_bytes

        return from_bytes(x, byteorder, signed=signed)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class FloatShim(float, metaclass=_FloatMeta):
    def __new__(cls, *a):
        if len(a) == 1:
            x = a[0].n if type(a[0]).__name__ == "NumText" else a[0]
            if is_sym(x):
                return SymReal(term_of(x))
        return float(*a)


def sym_len(x):
    f = getattr(type(x), "__symlen__", None)
    if f is not None:
        return f(x)
    return len(x)


class SymBlob:
    """Opaque bytes whose only relevant feature is their (symbolic) length."""

    __slots__ = ("n", "ident")

    def __init__(self, n, ident=None):
        self.n = n
        self.ident = ident

    @property
    def __class__(self):
        return bytes

    def __symlen__(self):
        return self.n

    def __len__(self):
        n = self.n
        return current().concretise(n._t) if is_sym(n) else n

    def __bool__(self):
        return bool(self.n != 0)

    def __repr__(self):
        return "<blob %r>" % (self.ident,)

    def __hash__(self):
        return hash(self.ident)

    def __eq__(self, o):
        return self is o

    def __getitem__(self, i):
        current().abort(Unsupported("content of an opaque blob"))

    __iter__ = None


def blob(ctx, name, hi):
    """Arbitrary bytes of symbolic length 0..hi."""
    n = ctx.int(name, 0, hi)
    if ctx.concrete:
        return b"x" * n
    return SymBlob(n, name)
