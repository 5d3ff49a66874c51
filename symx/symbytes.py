"""Byte vectors of fixed length whose bytes may be symbolic, a symbolic-aware
``struct.unpack``, and a tiny read-only file system serving them."""
from __future__ import annotations

import errno
import os
import struct

from .core import Unsupported, current
from .values import And, SymInt, is_sym, lift, term_of
from .z3load import z3


class SymBytes:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def of(x):
        return x if type(x) is SymBytes else SymBytes(bytes(x))

    def __len__(self):
        return len(self.items)

    def simplify(self):
        """A plain bytes object when nothing in it is symbolic."""
        if any(is_sym(i) for i in self.items):
            return self
        return bytes(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.items[i]).simplify()
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def eq(self, o):
        if not isinstance(o, bytes):
            return False
        o = list(o)
        if len(o) != len(self.items):
            return False
        return And(*[a == b for a, b in zip(self.items, o)])

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        from .values import Not

        return Not(self.eq(o))

    def concrete(self):
        ctx = current()
        return bytes(
            ctx.concretise(i._t, limit=256) if is_sym(i) else i for i in self.items
        )

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return self.concrete()

    def __add__(self, o):
        return SymBytes(self.items + list(o)).simplify()

    def __radd__(self, o):
        return SymBytes(list(o) + self.items).simplify()

    def startswith(self, p):
        if isinstance(p, tuple):
            from .values import Or

            return Or(*[self.startswith(x) for x in p])
        return SymBytes.of(self[: len(p)]).eq(p)

    def endswith(self, p):
        return SymBytes.of(self[len(self) - len(p) :]).eq(p) if len(p) <= len(self) else False

    def __contains__(self, x):
        from .values import Or

        if isinstance(x, int):
            return bool(Or(*[i == x for i in self.items]))
        n = len(x)
        return bool(
            Or(*[SymBytes(self.items[k : k + n]).eq(x) for k in range(len(self) - n + 1)])
        )

    def __repr__(self):
        return "<sym bytes %d>" % len(self.items)

    # -- methods shared with text; see symtext ------------------------------
    def isascii(self):
        return And(*[i < 128 for i in self.items])

    def decode(self, encoding="utf-8", errors="strict"):
        from .symtext import decode

        return decode(self, encoding, errors)

    def lower(self):
        from .symtext import _lower

        return SymBytes(_lower(self.items))

    def upper(self):
        from .symtext import _upper

        return SymBytes(_upper(self.items))

    def _strip(self, chars, ends):
        from .symtext import _chars, _strip

        return SymBytes(_strip(self.items, _chars(chars, bytes), ends)).simplify()

    def strip(self, chars=None):
        return self._strip(chars, 3)

    def lstrip(self, chars=None):
        return self._strip(chars, 1)

    def rstrip(self, chars=None):
        return self._strip(chars, 2)

    def split(self, sep=None, maxsplit=-1):
        from .symtext import _split

        return [
            SymBytes(x).simplify()
            for x in _split(self.items, None if sep is None else list(sep), maxsplit)
        ]

    def partition(self, sep):
        from .symtext import _partition

        return _partition(self, SymBytes.of(sep), SymBytes)

    def find(self, sub, start=0):
        from .symtext import _find

        return _find(self.items, list(sub), start)

    def index(self, sub, start=0):
        n = self.find(sub, start)
        if n < 0:
            raise ValueError("subsection not found")
        return n

    def _big(self):
        n = 0
        for b in self.items:
            n = n * 256 + b
        return n


def from_bytes(x, byteorder="big", *, signed=False):
    if type(x) is not SymBytes:
        return int.from_bytes(x, byteorder, signed=signed)
    items = x.items if byteorder == "big" else x.items[::-1]
    n = SymBytes(items)._big()
    if signed:
        from .values import Ite

        n = Ite(n >= 1 << (8 * len(items) - 1), n - (1 << (8 * len(items))), n)
    return n


_SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "L": 4, "l": 4, "I": 4, "i": 4, "Q": 8, "q": 8, "c": 1}


def sym_unpack(fmt, data):
    if type(data) is not SymBytes:
        return struct.unpack(fmt, data)
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    order = "big"
    f = fmt
    if f[0] in "><=!@":
        if f[0] == "<" or f[0] in "=@":
            order = "little"
        if f[0] == "@":
            current().abort(Unsupported("native struct format"))
        f = f[1:]
    elif len(data) != struct.calcsize(fmt) or True:
        current().abort(Unsupported("native struct format"))
    if struct.calcsize(fmt) != len(data):
        raise struct.error(
            "unpack requires a buffer of %d bytes" % (struct.calcsize(fmt),)
        )
    out = []
    pos = 0
    i = 0
    while i < len(f):
        j = i
        while f[j].isdigit():
            j += 1
        n = int(f[i:j]) if j > i else None
        code = f[j]
        i = j + 1
        if code == "s":
            n = 1 if n is None else n
            out.append(data[pos : pos + n])
            pos += n
        elif code == "x":
            pos += 1 if n is None else n
        else:
            for _ in range(1 if n is None else n):
                w = _SIZES[code]
                out.append(
                    from_bytes(
                        SymBytes(data.items[pos : pos + w]),
                        order,
                        signed=code.islower() and code != "c",
                    )
                )
                pos += w
    return tuple(out)


class SymStruct:
    """Stand-in for struct.Struct"""

    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def unpack(self, data):
        return sym_unpack(self.format, data)

    def pack(self, *a):
        return struct.pack(self.format, *a)


class SymFile:
    """A file: a list of leading bytes plus a (symbolic) total length; bytes
    past the listed ones are not modelled, apart from ``segments``: lists of
    bytes at (symbolic) offsets."""

    def __init__(self, head, length=None, segments=()):
        self.head = list(head)
        self.length = len(self.head) if length is None else length
        self.segments = list(segments)

    def segment(self, pos, n):
        """The n bytes at a symbolic position, if they lie in a segment."""
        for offset, items in self.segments:
            d = pos - offset
            if not is_sym(d) and 0 <= d and d + n <= len(items):
                return items[d : d + n]
        return None


class SymOpen:
    def __init__(self, f):
        self.f = f
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, n=-1):
        if n is None or (not is_sym(n) and n < 0):
            n = self.f.length - self.pos
        if is_sym(n):
            n = current().concretise(n._t)
        items = self.f.segment(self.pos, n)
        if items is not None:
            self.pos = self.pos + n
            return SymBytes(items).simplify()
        left = self.f.length - self.pos
        if is_sym(left):
            if left < n:
                n = max(0, current().concretise(left._t, limit=600))
        else:
            n = max(0, min(n, left))
        if n == 0:
            return b""
        if is_sym(self.pos) or self.pos + n > len(self.f.head):
            current().abort(Unsupported("reading unmodelled file content"))
        out = SymBytes(self.f.head[self.pos : self.pos + n]).simplify()
        self.pos += n
        return out

    def seek(self, pos, whence=0):
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = self.f.length + pos
        if pos < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = pos
        return pos

    def tell(self):
        return self.pos


class SymStat:
    def __init__(self, size):
        self.st_size = size

    def __getitem__(self, i):
        if i == 6:
            return self.st_size
        current().abort(Unsupported("os.stat field %r" % (i,)))


def _p(path):
    path = getattr(path, "path", path)
    if isinstance(path, str):
        path = os.fsencode(path)
    return os.path.normpath(path)


class SymFS:
    def __init__(self, order=None):
        self.files = {}
        self.order = order

    def add(self, path, f):
        self.files[_p(path)] = f

    def get(self, path):
        try:
            return self.files[_p(path)]
        except KeyError:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)

    def listdir(self, path="."):
        d = _p(path)
        names = [os.path.basename(p) for p in self.files if os.path.dirname(p) == d]
        if not names:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if isinstance(path, bytes):
            return names
        return [os.fsdecode(n) for n in names]

    def stat(self, path, **kw):
        return SymStat(self.get(path).length)

    def getsize(self, path):
        return self.get(path).length

    def exists(self, path):
        p = _p(path)
        return any(f == p or f.startswith(p + b"/") for f in self.files)

    def open(self, path, mode="r", *a, **kw):
        if "b" not in mode or "w" in mode or "+" in mode or "a" in mode:
            current().abort(Unsupported("open mode %r" % mode))
        return SymOpen(self.get(path))

    def install(self, patcher):
        import os as _os

        p = patcher
        pathview = None
        from .env import ModuleView

        pathview = ModuleView(
            _os.path, {"getsize": self.getsize, "exists": self.exists, "isfile": self.exists}
        )
        p.replace(_os.listdir, self.listdir)
        p.replace(_os.stat, self.stat)
        p.replace(_os.path.getsize, self.getsize)
        p.replace(_os.path.exists, self.exists)
        p.proxy_module(
            _os, listdir=self.listdir, stat=self.stat, path=pathview, open=self.open
        )
        p.inject("open", self.open)
        p.replace(struct.unpack, sym_unpack)
        p.replace(struct.Struct, SymStruct)
        p.proxy_module(struct, unpack=sym_unpack, Struct=SymStruct)
        self.osview = ModuleView(_os, dict(listdir=self.listdir, stat=self.stat, path=pathview, open=self.open))
        self.structview = ModuleView(struct, dict(unpack=sym_unpack, Struct=SymStruct))
        return self

    def install_into(self, patcher, *modules):
        """Serve other packages' modules too."""
        for m in modules:
            patcher.set(m, "open", self.open)
            if hasattr(m, "os"):
                patcher.set(m, "os", self.osview)
            if hasattr(m, "struct"):
                patcher.set(m, "struct", self.structview)
