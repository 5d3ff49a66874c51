"""Text that says a (symbolic) number, as found in a configuration file."""
from __future__ import annotations

from .core import Unsupported, current
from .values import SymInt, is_sym


class NumText:
    """The decimal text of a symbolic number."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return str

    def strip(self, chars=None):
        if chars is not None:
            current().abort(Unsupported("strip(%r) of a number's text" % (chars,)))
        return self

    lstrip = rstrip = strip

    def __bool__(self):
        return True

    def __len__(self):
        current().abort(Unsupported("length of a number's text"))

    def __eq__(self, o):
        if o is None or not isinstance(o, str):
            return False
        if type(o) is NumText:
            return self.n == o.n
        if str(o).isdigit() and str(int(o)) == o:
            return self.n == int(o)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        current().abort(Unsupported("hash of a number's text"))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        current().abort(Unsupported("str.%s of a number's text" % name))

    def __str__(self):
        current().abort(Unsupported("a number's text as plain text"))

    __repr__ = lambda self: "<number's text>"


def number_text(n):
    return NumText(n) if is_sym(n) else str(n)


def int_of(x):
    return x.n if type(x) is NumText else None


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)


class StrShim(str, metaclass=_StrMeta):
    def __new__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            if type(a[0]) is SymInt:
                return NumText(a[0])
            if type(a[0]) is NumText:
                return a[0]
        return str(*a, **kw)

    maketrans = staticmethod(str.maketrans)


def install(patcher):
    """The text of a number, made by ``str``, remembers the number."""
    patcher.inject("str", StrShim)
