"""Text of fixed length with symbolic code points, symbolic regular
expressions and base64, over the representation of symbytes.SymBytes."""
from __future__ import annotations

import base64
import binascii
import re

try:
    import re._parser as sre_parse
except ImportError:
    import sre_parse

from .core import Unsupported, current
from .symbytes import SymBytes
from .values import And, Ite, Not, Or, is_sym


class SymStr:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    @property
    def __class__(self):
        return str

    @staticmethod
    def of(x):
        return x if type(x) is SymStr else SymStr([ord(c) for c in x])

    def __len__(self):
        return len(self.items)

    def simplify(self):
        if any(is_sym(i) for i in self.items):
            return self
        return "".join(map(chr, self.items))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.items[i]).simplify()
        return SymStr([self.items[i]]).simplify()

    def __iter__(self):
        for i in self.items:
            yield SymStr([i]).simplify()

    def eq(self, o):
        if not isinstance(o, str):
            return False
        o = SymStr.of(o).items
        if len(o) != len(self.items):
            return False
        return And(*[a == b for a, b in zip(self.items, o)])

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return Not(self.eq(o))

    def _cmp(self, o):
        """(less, equal)"""
        o = SymStr.of(o).items
        less, same = False, True
        for a, b in zip(self.items, o):
            less = Or(less, And(same, a < b))
            same = And(same, a == b)
        if len(self.items) < len(o):
            return Or(less, same), False
        return less, same if len(self.items) == len(o) else False

    def __lt__(self, o):
        return self._cmp(o)[0]

    def __le__(self, o):
        return Or(*self._cmp(o))

    def __gt__(self, o):
        return Not(self <= o)

    def __ge__(self, o):
        return Not(self < o)

    def concrete(self):
        ctx = current()
        return "".join(
            chr(ctx.concretise(i._t, limit=256)) if is_sym(i) else chr(i) for i in self.items
        )

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return "<text>" if current().opaque_text else self.concrete()

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        return "<sym text %d>" % len(self.items)

    def __add__(self, o):
        return SymStr(self.items + SymStr.of(o).items).simplify()

    def __radd__(self, o):
        return SymStr(SymStr.of(o).items + self.items).simplify()

    def __contains__(self, x):
        return bool(_contains(self.items, SymStr.of(x).items))

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        return SymStr.of(self[: len(p)]).eq(p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.endswith(x) for x in p])
        return SymStr.of(self[len(self) - len(p) :]).eq(p) if len(p) <= len(self) else False

    def isascii(self):
        return And(*[i < 128 for i in self.items])

    def _ascii(self):
        if not self.isascii():
            current().abort(Unsupported("text method on symbolic non-ASCII text"))

    def lower(self):
        self._ascii()
        return SymStr(_lower(self.items))

    def upper(self):
        self._ascii()
        return SymStr(_upper(self.items))

    def strip(self, chars=None):
        self._ascii()
        return SymStr(_strip(self.items, _chars(chars, str), 3)).simplify()

    def lstrip(self, chars=None):
        self._ascii()
        return SymStr(_strip(self.items, _chars(chars, str), 1)).simplify()

    def rstrip(self, chars=None):
        self._ascii()
        return SymStr(_strip(self.items, _chars(chars, str), 2)).simplify()

    def split(self, sep=None, maxsplit=-1):
        self._ascii()
        return [SymStr(x).simplify() for x in _split(self.items, None if sep is None else SymStr.of(sep).items, maxsplit)]

    def partition(self, sep):
        return _partition(self, SymStr.of(sep), SymStr)

    def isalnum(self):
        self._ascii()
        return And(len(self.items) > 0, *[Or(_digit(i), _alpha(i)) for i in self.items])

    def isdigit(self):
        self._ascii()
        return And(len(self.items) > 0, *[_digit(i) for i in self.items])

    def encode(self, encoding="utf-8", errors="strict"):
        encoding = encoding.lower().replace("_", "-")
        top = {"ascii": 128, "us-ascii": 128, "latin-1": 256, "latin1": 256, "utf-8": 128, "utf8": 128}.get(encoding)
        if top is None or errors != "strict":
            current().abort(Unsupported("encoding " + encoding))
        if And(*[i < top for i in self.items]):
            return SymBytes(self.items).simplify()
        if encoding in ("utf-8", "utf8"):
            return SymBytes([b for i in self.items for b in _utf8(i)]).simplify()
        # No matter where exactly.
        raise UnicodeEncodeError(encoding, "\ufffd", 0, 1, "ordinal not in range(%d)" % top)


def _utf8(i):
    if i < 0x80:
        return [i]
    if i < 0x800:
        return [0xC0 + i // 64, 0x80 + i % 64]
    if And(i >= 0xD800, i < 0xE000):
        raise UnicodeEncodeError("utf-8", "\ufffd", 0, 1, "surrogates not allowed")
    if i < 0x10000:
        return [0xE0 + i // 4096, 0x80 + (i // 64) % 64, 0x80 + i % 64]
    return [0xF0 + i // 262144, 0x80 + (i // 4096) % 64, 0x80 + (i // 64) % 64, 0x80 + i % 64]


def decode(data, encoding="utf-8", errors="strict"):
    """SymBytes.decode"""
    encoding = encoding.lower().replace("_", "-")
    items = data.items
    if errors != "strict":
        current().abort(Unsupported("decoding with errors=" + errors))
    if encoding in ("latin-1", "latin1", "iso-8859-1"):
        return SymStr(items).simplify()
    if encoding not in ("ascii", "us-ascii", "utf-8", "utf8"):
        current().abort(Unsupported("encoding " + encoding))
    if And(*[i < 128 for i in items]):
        return SymStr(items).simplify()
    if encoding not in ("utf-8", "utf8"):
        raise UnicodeDecodeError(encoding, b"?", 0, 1, "ordinal not in range(128)")
    out = []
    n = 0
    bad = lambda: UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid start byte")

    def cont(k, lo=0x80, hi=0xBF):
        if k >= len(items) or not And(items[k] >= lo, items[k] <= hi):
            raise bad()
        return items[k] - 0x80

    while n < len(items):
        a = items[n]
        if a < 0x80:
            out.append(a)
            n += 1
        elif And(a >= 0xC2, a <= 0xDF):
            out.append((a - 0xC0) * 64 + cont(n + 1))
            n += 2
        elif And(a >= 0xE0, a <= 0xEF):
            if a == 0xE0:
                b = cont(n + 1, lo=0xA0)
            elif a == 0xED:
                b = cont(n + 1, hi=0x9F)
            else:
                b = cont(n + 1)
            out.append((a - 0xE0) * 4096 + b * 64 + cont(n + 2))
            n += 3
        elif And(a >= 0xF0, a <= 0xF4):
            if a == 0xF0:
                b = cont(n + 1, lo=0x90)
            elif a == 0xF4:
                b = cont(n + 1, hi=0x8F)
            else:
                b = cont(n + 1)
            out.append((a - 0xF0) * 262144 + b * 4096 + cont(n + 2) * 64 + cont(n + 3))
            n += 4
        else:
            raise bad()
    return SymStr(out).simplify()


# -- shared between bytes and text ------------------------------------------------


def _digit(i):
    return And(i >= 48, i <= 57)


def _alpha(i):
    return Or(And(i >= 65, i <= 90), And(i >= 97, i <= 122))


def _lower(items):
    return [Ite(And(i >= 65, i <= 90), i + 32, i) if is_sym(i) else (i + 32 if 65 <= i <= 90 else i) for i in items]


def _upper(items):
    return [Ite(And(i >= 97, i <= 122), i - 32, i) if is_sym(i) else (i - 32 if 97 <= i <= 122 else i) for i in items]


SPACES = [9, 10, 11, 12, 13, 32]


def _chars(chars, kind):
    if chars is None:
        return SPACES + ([28, 29, 30, 31] if kind is str else [])
    return [ord(c) for c in chars] if kind is str else list(chars)


def _in(i, chars):
    return Or(*[i == c for c in chars])


def _strip(items, chars, ends):
    lo, hi = 0, len(items)
    if ends & 1:
        while lo < hi and _in(items[lo], chars):
            lo += 1
    if ends & 2:
        while hi > lo and _in(items[hi - 1], chars):
            hi -= 1
    return items[lo:hi]


def _at(items, n, pat):
    return And(*[items[n + k] == p for k, p in enumerate(pat)])


def _contains(items, pat):
    return Or(*[_at(items, n, pat) for n in range(len(items) - len(pat) + 1)]) if len(pat) <= len(items) else False


def _find(items, pat, start=0):
    for n in range(start, len(items) - len(pat) + 1):
        if _at(items, n, pat):
            return n
    return -1


def _split(items, sep, maxsplit):
    out = []
    if sep is None:
        n = 0
        while True:
            while n < len(items) and _in(items[n], SPACES):
                n += 1
            if n == len(items):
                return out
            if maxsplit >= 0 and len(out) == maxsplit:
                out.append(_strip(items[n:], SPACES, 2))
                return out
            start = n
            while n < len(items) and not _in(items[n], SPACES):
                n += 1
            out.append(items[start:n])
    if not sep:
        raise ValueError("empty separator")
    start = 0
    while maxsplit < 0 or len(out) < maxsplit:
        n = _find(items, sep, start)
        if n < 0:
            break
        out.append(items[start:n])
        start = n + len(sep)
    out.append(items[start:])
    return out


def _partition(x, sep, kind):
    n = _find(x.items, sep.items)
    if n < 0:
        return x, kind([]).simplify(), kind([]).simplify()
    k = n + len(sep.items)
    return kind(x.items[:n]).simplify(), sep.simplify(), kind(x.items[k:]).simplify()


# -- regular expressions -----------------------------------------------------------


def _category(name, i, is_bytes):
    name = repr(name)
    digit = _digit(i)
    word = Or(_alpha(i), digit, i == 95)
    space = _in(i, SPACES)
    f = {"DIGIT": digit, "WORD": word, "SPACE": space}[name.split("_")[-1]]
    if not is_bytes and is_sym(i):
        # Unicode categories reach further
        if not (i < 128):
            current().abort(Unsupported("a Unicode category of a non-ASCII character"))
    return Not(f) if "_NOT_" in name else f


class SymPattern:
    """A compiled pattern that also decides symbolic subjects; whether there
    is a match is decided exactly, groups are not available."""

    def __init__(self, pattern):
        self.real = pattern
        self.pattern = pattern.pattern
        self.flags = pattern.flags
        self.is_bytes = isinstance(pattern.pattern, bytes)

    @property
    def __class__(self):
        return re.Pattern

    def __getattr__(self, name):
        return getattr(self.real, name)

    def match(self, s, *a):
        return self._decide("match", s, a)

    def fullmatch(self, s, *a):
        return self._decide("fullmatch", s, a)

    def search(self, s, *a):
        return self._decide("search", s, a)

    def _decide(self, how, s, a):
        if type(s) not in (SymBytes, SymStr):
            return getattr(self.real, how)(s, *a)
        if a or self.flags & ~(re.UNICODE | re.ASCII | re.DOTALL):
            current().abort(Unsupported("regular expression flags or positions"))
        if self.is_bytes != (type(s) is SymBytes):
            raise TypeError("cannot use a %s pattern on this object" % ("bytes" if self.is_bytes else "string"))
        self.items = s.items
        tree = list(sre_parse.parse(self.pattern, self.flags))
        starts = {n: True for n in range(len(self.items) + 1)} if how == "search" else {0: True}
        ends = self._seq(tree, starts)
        if how == "fullmatch":
            ok = ends.get(len(self.items), False)
        else:
            ok = Or(*ends.values())
        return SymMatch() if ok else None

    def _seq(self, nodes, at):
        for node in nodes:
            at = self._node(node, at)
            if not at:
                return at
        return at

    def _one(self, at, test):
        return {n + 1: And(c, test(self.items[n])) for n, c in at.items() if n < len(self.items)}

    @staticmethod
    def _merge(a, b):
        out = dict(a)
        for n, c in b.items():
            out[n] = Or(out[n], c) if n in out else c
        return {n: c for n, c in out.items() if c is not False}

    def _node(self, node, at):
        op, arg = node
        op = repr(op)
        size = len(self.items)
        if op == "LITERAL":
            return self._one(at, lambda i: i == arg)
        if op == "NOT_LITERAL":
            return self._one(at, lambda i: Not(i == arg))
        if op == "ANY":
            return self._one(at, (lambda i: True) if self.flags & re.DOTALL else (lambda i: Not(i == 10)))
        if op == "IN":
            return self._one(at, lambda i: self._set(arg, i))
        if op == "AT":
            where = repr(arg)
            if where in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                return {n: c for n, c in at.items() if n == 0}
            if where == "AT_END_STRING":
                return {n: c for n, c in at.items() if n == size}
            if where == "AT_END":
                out = {}
                for n, c in at.items():
                    if n == size:
                        out[n] = c
                    elif n == size - 1:
                        out[n] = And(c, self.items[n] == 10)
                return out
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = arg
            hi = size + 1 if repr(hi) == "MAXREPEAT" else hi
            out = dict(at) if lo == 0 else {}
            cur = at
            for k in range(1, min(hi, size + 1) + 1):
                cur = self._seq(list(body), cur)
                if not cur:
                    break
                if k >= lo:
                    out = self._merge(out, cur)
            else:
                if lo > k:
                    return {}
            return out
        if op == "SUBPATTERN":
            if len(arg) == 4 and (arg[1] or arg[2]):
                current().abort(Unsupported("inline flags"))
            return self._seq(list(arg[-1]), at)
        if op == "BRANCH":
            out = {}
            for alt in arg[1]:
                out = self._merge(out, self._seq(list(alt), at))
            return out
        current().abort(Unsupported("regular expression element %s" % (op,)))

    def _set(self, parts, i):
        neg = False
        found = []
        for op, arg in parts:
            op = repr(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                found.append(i == arg)
            elif op == "RANGE":
                found.append(And(i >= arg[0], i <= arg[1]))
            elif op == "CATEGORY":
                found.append(_category(arg, i, self.is_bytes))
            else:
                current().abort(Unsupported("regular expression element %s" % (op,)))
        r = Or(*found)
        return Not(r) if neg else r


class SymMatch:
    def __bool__(self):
        return True

    def __getattr__(self, name):
        current().abort(Unsupported("the groups of a match of symbolic text"))


# -- base64 --------------------------------------------------------------------------

STANDARD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _sextet(i, alphabet):
    """(is a digit, value)"""
    if not is_sym(i):
        v = alphabet.find(bytes([i]))
        return v >= 0, max(v, 0)
    up, lo, di = And(i >= 65, i <= 90), And(i >= 97, i <= 122), _digit(i)
    p, s = i == alphabet[62], i == alphabet[63]
    value = Ite(up, i - 65, Ite(lo, i - 71, Ite(di, i + 4, Ite(p, 62, 63))))
    return Or(up, lo, di, p, s), value


def sym_b64decode(s, altchars=None, validate=False):
    """base64.b64decode: characters outside the alphabet are skipped, and the
    padding is checked as the standard library checks it."""
    if type(s) is SymStr:
        if not s.isascii():
            raise ValueError("string argument should contain only ASCII characters")
        s = SymBytes(s.items)
    if type(s) is not SymBytes:
        return base64.b64decode(s, altchars, validate)
    ctx = current()
    alphabet = STANDARD
    items = s.items
    if altchars is not None:
        # The replacement is a translation: the standard characters stay valid.
        a, b = bytes(altchars)
        items = [Ite(i == a, 43, Ite(i == b, 47, i)) if is_sym(i) else {a: 43, b: 47}.get(i, i) for i in items]
    data = [_sextet(i, alphabet) for i in items]
    if validate:
        # [A-Za-z0-9+/]*={0,2}
        n = len(items)
        ok = Or(*[
            And(*[d for d, _ in data[: n - k]], *[i == 61 for i in items[n - k :]])
            for k in range(0, min(2, n) + 1)
        ])
        if not ok:
            raise binascii.Error("Non-base64 digit found")
    quad, pad, done, count = 0, False, False, 0
    for i, (d, _) in zip(items, data):
        is_pad = And(Not(done), i == 61)
        digit = And(Not(done), d)
        ends = And(is_pad, Or(quad == 3, And(quad == 2, pad)))
        # a pad character is remembered only when it does not end the data
        pad = And(Or(is_pad, And(pad, Not(digit))), True)
        count = Ite(digit, count + 1, count)
        quad = Ite(digit, Ite(quad == 3, 0, quad + 1), quad)
        done = Or(done, ends)
    # leftover bits and no end of the data
    if And(Not(done), Not(quad == 0)):
        raise binascii.Error("Incorrect padding")
    n = ctx.concretise(count._t, limit=80) if is_sym(count) else count
    if n <= len(items) and And(*[d for d, _ in data[:n]]):
        values = [v for _, v in data[:n]]
    else:
        current().abort(Unsupported("the content of base64 with characters that are skipped"))
    out = []
    for k in range(0, n - n % 4, 4):
        w = ((values[k] * 64 + values[k + 1]) * 64 + values[k + 2]) * 64 + values[k + 3]
        out += [w // 65536, w // 256 % 256, w % 256]
    rest = values[n - n % 4 :]
    if len(rest) >= 2:
        out.append(rest[0] * 4 + rest[1] // 16)
    if len(rest) == 3:
        out.append(rest[1] % 16 * 16 + rest[2] // 4)
    return SymBytes(out).simplify()


# -- installation ----------------------------------------------------------------------


def sym_eq(a, b):
    """A constant-time comparison."""
    if not isinstance(a, bytes) or not isinstance(b, bytes):
        raise TypeError("a and b must be bytes.")
    return SymBytes.of(a) == SymBytes.of(b) if SymBytes in (type(a), type(b)) else a == b


def sym_compare_digest(a, b):
    if isinstance(a, str) and isinstance(b, str):
        for x in (a, b):
            if not (SymStr.of(x).isascii()):
                raise TypeError("comparing strings with non-ASCII characters is not supported")
        return SymStr.of(a) == SymStr.of(b)
    if isinstance(a, str) or isinstance(b, str):
        raise TypeError("unsupported operand types")
    return SymBytes.of(a) == SymBytes.of(b)


def install(patcher):
    from .env import repo_modules

    for m in repo_modules():
        for k, v in list(vars(m).items()):
            if type(v) is re.Pattern:
                patcher.set(m, k, SymPattern(v))
    compile_ = lambda p, flags=0: p if isinstance(p, re.Pattern) else SymPattern(re.compile(p, flags))
    one = lambda how: lambda p, s, flags=0: getattr(compile_(p, flags), how)(s)
    fs = {"match": one("match"), "fullmatch": one("fullmatch"), "search": one("search"), "compile": compile_}
    for name, f in fs.items():
        patcher.replace(getattr(re, name), f)
    patcher.proxy_module(re, **fs)
    url = lambda s: sym_b64decode(s, b"-_")
    # the real urlsafe_b64decode translates first
    for original, stub in (
        (base64.b64decode, sym_b64decode),
        (base64.urlsafe_b64decode, url),
        (base64.standard_b64decode, lambda s: sym_b64decode(s)),
        (binascii.a2b_base64, lambda s: sym_b64decode(s)),
    ):
        patcher.replace(original, stub)
    patcher.proxy_module(base64, b64decode=sym_b64decode, urlsafe_b64decode=url, standard_b64decode=lambda s: sym_b64decode(s))
    patcher.proxy_module(binascii, a2b_base64=lambda s: sym_b64decode(s))
    import hmac

    patcher.replace(hmac.compare_digest, sym_compare_digest)
    patcher.proxy_module(hmac, compare_digest=sym_compare_digest)
    try:
        from cryptography.hazmat.primitives import constant_time
    except ImportError:
        return
    patcher.replace(constant_time.bytes_eq, sym_eq)
    patcher.proxy_module(constant_time, bytes_eq=sym_eq)


def text(ctx, name, n, lo=0, hi=0x10FFFF):
    """Arbitrary text of length n."""
    codes = [ctx.int("%s%d" % (name, i), lo, hi) for i in range(n)]
    if ctx.concrete:
        return "".join(map(chr, codes))
    return SymStr(codes)


def octets(ctx, name, n, lo=0, hi=255):
    codes = [ctx.int("%s%d" % (name, i), lo, hi) for i in range(n)]
    if ctx.concrete:
        return bytes(codes)
    return SymBytes(codes)
