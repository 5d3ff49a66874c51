"""Symbolic points in time and durations (microsecond resolution).

``install`` rebinds ``datetime``, ``timedelta`` and ``parse_datetime`` in the
code under test to stand-ins that accept symbolic numbers and otherwise defer
to the real classes; concrete replays use the real ones throughout."""
from __future__ import annotations

from datetime import datetime, timedelta, timezone
from fractions import Fraction

from .core import Unsupported, current
from .sqlsym import SymTime
from .values import SymInt, SymReal, is_sym, lift, mkbool, term_of, wrap
from .z3load import z3

EPOCH = datetime(1970, 1, 1)
US = 1000000


def unsupported(what):
    current().abort(Unsupported(what))


def us_of_delta(td):
    if type(td) is SymDelta:
        return td.us
    return (td.days * 86400 + td.seconds) * US + td.microseconds


def us_of_time(dt):
    if type(dt) is SymDateTime:
        return dt.us
    off = dt.utcoffset()
    base = dt.replace(tzinfo=None) - EPOCH
    return us_of_delta(base) - (us_of_delta(off) if off is not None else 0)


def I(x):
    t = term_of(x)
    return t


def _cmp(name):
    import operator

    op = getattr(operator, name)

    def f(self, o):
        v = self._other(o)
        if v is None:
            return NotImplemented
        return op(self.us, v)

    return f


class _Order:
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")
    __hash__ = None


class SymDelta(_Order, timedelta):
    """A duration of a symbolic number of microseconds.  (A real subclass, so
    that its operators win over those of a plain duration on the left.)"""

    def __new__(cls, us):
        self = timedelta.__new__(cls)
        self.us = us
        return self

    def _other(self, o):
        return us_of_delta(o) if isinstance(o, timedelta) else None

    def total_seconds(self):
        us = self.us
        if not is_sym(us):
            return us / US
        return SymReal(z3.ToReal(I(us)) / z3.RealVal(US))

    def __add__(self, o):
        if isinstance(o, datetime):
            return o_plus(o, self.us)
        if isinstance(o, timedelta):
            return delta(self.us + us_of_delta(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return delta(self.us - us_of_delta(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return o_plus(o, -self.us)
        if isinstance(o, timedelta):
            return delta(us_of_delta(o) - self.us)
        return NotImplemented

    def __neg__(self):
        return delta(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return delta(abs(self.us))

    def __bool__(self):
        return bool(self.us != 0)

    def __mul__(self, o):
        if isinstance(o, int):
            return delta(self.us * o)
        if isinstance(o, float):
            return make_delta(microseconds=self.us * o)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int):
            return delta(self.us // o)
        if isinstance(o, timedelta):
            return self.us // us_of_delta(o)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self.us / us_of_delta(o)
        if isinstance(o, (int, float)):
            return make_delta(microseconds=self.us / o)
        return NotImplemented

    @property
    def days(self):
        return self.us // (86400 * US)

    @property
    def seconds(self):
        return self.us // US % 86400

    @property
    def microseconds(self):
        return self.us % US

    def __repr__(self):
        return "<sym duration>"

    __str__ = __repr__


def delta(us):
    return SymDelta(us) if is_sym(us) else timedelta(microseconds=us)


def make_delta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = (
        (days, 86400 * US), (seconds, US), (microseconds, 1), (milliseconds, 1000),
        (minutes, 60 * US), (hours, 3600 * US), (weeks, 7 * 86400 * US),
    )
    if not any(is_sym(p) for p, _ in parts):
        return timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    total = 0
    for p, f in parts:
        if is_sym(p) or isinstance(p, int):
            total = total + p * f
        else:
            total = total + wrap(z3.simplify(term_of(Fraction(p)) * f))
    return delta(to_us(total))


def as_int(t):
    """The Int term equal to a Real term, if its shape shows that it is whole."""
    if t.sort() == z3.IntSort():
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        args = [as_int(a) for a in t.children()]
        if any(a is None for a in args):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(args)
        if k == z3.Z3_OP_MUL:
            return z3.Product(args)
        return args[0] - args[1] if k == z3.Z3_OP_SUB else -args[0]
    if k == z3.Z3_OP_ITE:
        a, b = as_int(t.arg(1)), as_int(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


def to_us(total):
    """The nearest whole number (either of the two at a tie)."""
    t = term_of(total)
    if t.sort() == z3.IntSort():
        return lift(t)
    t = z3.simplify(t, som=True)
    whole = as_int(t)
    if whole is not None:
        return lift(whole)
    ctx = current()
    ctx.fresh_n += 1
    r = z3.Int("us!%d" % ctx.fresh_n)
    ctx.constrain(2 * (z3.ToReal(r) - t) <= 1)
    ctx.constrain(2 * (t - z3.ToReal(r)) <= 1)
    return SymInt(r)


class SymDateTime(_Order, datetime):
    """A symbolic point in time, naive (tz None) or in UTC."""

    def __new__(cls, us, tz=None):
        self = datetime.__new__(cls, 1970, 1, 1)
        self.us = us
        self.tz = tz
        return self

    @property
    def tzinfo(self):
        return self.tz

    def _other(self, o):
        if not isinstance(o, datetime):
            return None
        if (o.tzinfo is None) != (self.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return us_of_time(o)

    def __sub__(self, o):
        if isinstance(o, datetime):
            if (o.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return delta(self.us - us_of_time(o))
        if isinstance(o, timedelta):
            return SymDateTime(self.us - us_of_delta(o), self.tzinfo)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return -(self - o)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, timedelta):
            return SymDateTime(self.us + us_of_delta(o), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def utcoffset(self):
        return None if self.tzinfo is None else timedelta(0)

    def replace(self, **kw):
        us, tz = self.us, kw.pop("tzinfo", self.tzinfo)
        if "microsecond" in kw:
            us = us - us % US + kw.pop("microsecond")
        if kw or tz not in (None, timezone.utc):
            unsupported("datetime.replace(%s)" % ", ".join(kw))
        return SymDateTime(us, tz)

    def astimezone(self, tz=None):
        if self.tzinfo is None or tz is not timezone.utc:
            unsupported("datetime.astimezone")
        return self

    def timestamp(self):
        if self.tzinfo is None:
            unsupported("timestamp of a naive datetime")
        return SymReal(z3.ToReal(I(self.us)) / z3.RealVal(US))

    def isoformat(self, sep="T", timespec="auto"):
        return IsoText(self, sep)

    def __str__(self):
        return "<sym time>"

    __repr__ = __str__

    def __sqlvalue__(self):
        return SymTime(I(self.us))


class IsoText:
    """The ISO 8601 text of a symbolic time."""

    def __init__(self, when, sep="T", encoded=False):
        self.when = when
        self.sep = sep
        self.encoded = encoded

    @property
    def __class__(self):
        return bytes if self.encoded else str

    def encode(self, *a):
        return IsoText(self.when, self.sep, True)

    def decode(self, *a):
        return IsoText(self.when, self.sep, False)

    def strip(self):
        return self

    def __eq__(self, o):
        if isinstance(o, IsoText):
            return self.when == o.when
        return False

    def __hash__(self):
        return id(self)

    def __sqlvalue__(self):
        return SymTime(I(self.when.us))


def o_plus(dt, us):
    tz = dt.tzinfo
    return SymDateTime(us_of_time(dt) + us, tz)


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


class DateTimeShim(metaclass=_Meta):
    _real = datetime

    def __new__(cls, *a, **kw):
        return datetime(*a, **kw)

    @staticmethod
    def utcfromtimestamp(t):
        if not is_sym(t):
            return datetime.utcfromtimestamp(t)
        return SymDateTime(to_us(t * US))

    @staticmethod
    def fromtimestamp(t, tz=None):
        if not is_sym(t):
            return datetime.fromtimestamp(t, tz)
        if tz is not timezone.utc:
            unsupported("local time")
        return SymDateTime(to_us(t * US), timezone.utc)

    @staticmethod
    def fromisoformat(text):
        if isinstance(text, IsoText):
            return text.when
        return datetime.fromisoformat(text)

    @staticmethod
    def utcnow():
        unsupported("the real clock")

    @staticmethod
    def now(tz=None):
        unsupported("the real clock")


class TimeDeltaShim(metaclass=_Meta):
    _real = timedelta

    def __new__(cls, *a, **kw):
        return make_delta(*a, **kw)


def install(patcher):
    from aniso8601 import parse_datetime

    def parse(text, delimiter="T"):
        if type(text) is IsoText:
            return text.when
        if type(text) is SymTime:
            return SymDateTime(lift(text.t), timezone.utc)
        return parse_datetime(text, delimiter)

    patcher.replace(datetime, DateTimeShim)
    patcher.replace(timedelta, TimeDeltaShim)
    patcher.replace(parse_datetime, parse)


def time_of(ctx, us, tz=None):
    """The datetime ``us`` microseconds after the epoch."""
    if ctx.concrete or not is_sym(us):
        dt = EPOCH + timedelta(microseconds=us)
        return dt if tz is None else dt.replace(tzinfo=tz)
    return SymDateTime(us, tz)


def delta_of(ctx, us):
    return timedelta(microseconds=us) if ctx.concrete else delta(us)


def us(x):
    """Microseconds (since the epoch, for a point in time)."""
    return us_of_delta(x) if isinstance(x, timedelta) else us_of_time(x)
