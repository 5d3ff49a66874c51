"""A small SQL engine over tables whose rows may or may not be there.

It executes the SQL text the code under test issues.  Every row carries a
guard (an arbitrary condition: "this row exists"), every cell may be symbolic
(numbers, times, interned text, null-ness).  Nothing forks while statements run
unless the database itself would raise an error; results fork when Python
looks at them.  Transactions, statement atomicity, unique keys, foreign keys,
rowids, AUTOINCREMENT and temporary tables behave like SQLite's; the checks
validate this against the real SQLite on the models of explored paths.
"""
from __future__ import annotations

import re
import sqlite3
from datetime import datetime

from .core import Unsupported, current
from .values import SymBool, SymInt, SymReal, is_sym, lift, mkbool, term_of, wrap
from .z3load import z3

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def unsupported(what):
    current().abort(Unsupported("SQL: " + what))


# -- values --------------------------------------------------------------------

_intern = {}
_texts = []


def intern(s):
    i = _intern.get(s)
    if i is None:
        i = _intern[s] = len(_texts)
        _texts.append(s)
    return i


class SymText:
    """Text known only as one of the interned strings."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def concrete(self):
        return _texts[current().concretise(self.t)]


def sym_text(ctx, name, options):
    """An arbitrary one of the given strings (symbolic mode)."""
    if ctx.concrete:
        return ctx.pick(name, options)
    options = list(options)
    i = ctx.int(name, 0, len(options) - 1)
    t = z3.IntVal(intern(options[-1]))
    for k in range(len(options) - 2, -1, -1):
        t = z3.If(i._t == k, z3.IntVal(intern(options[k])), t)
    return SymText(t)


class SymTime:
    """A point in time (microseconds); orders and compares like its text."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.IntVal(int(t))

    def __repr__(self):
        return "<time>"


class Opaque:
    """A value about which nothing is known but its identity (a term)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Opt:
    """NULL if ``null``, else ``val`` (which is not None)."""

    __slots__ = ("null", "val")

    def __init__(self, null, val):
        self.null = null
        self.val = val


def opt(null, val):
    null = z3.simplify(bt(null))
    if z3.is_true(null) or val is None:
        return None
    if z3.is_false(null):
        return val
    return Opt(null, val)


def bt(x):
    if type(x) is SymBool:
        return x._t
    if z3.is_expr(x):
        return x
    return TRUE if x else FALSE


def AND(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def NOT(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def null_of(v):
    if v is None:
        return TRUE
    return v.null if type(v) is Opt else FALSE


def val_of(v):
    return v.val if type(v) is Opt else v


def kind(v):
    """num, text, time, blob, opaque"""
    t = type(v)
    if t in (SymInt, SymReal) or isinstance(v, (int, float)):
        return "num"
    if t is SymText or isinstance(v, str):
        return "text"
    if t is SymTime:
        return "time"
    if t is Opaque:
        return "opaque"
    if isinstance(v, bytes):
        return "blob"
    unsupported("value %r" % (type(v),))


def text_term(v):
    return v.t if type(v) is SymText else z3.IntVal(intern(v))


def eq_term(a, b):
    """Equality of two non-null values."""
    ka, kb = kind(a), kind(b)
    if ka != kb:
        if {ka, kb} <= {"time", "text"}:
            # a time's text against some other text: only the empty string or
            # clearly different text can be decided
            other = a if ka == "text" else b
            if isinstance(other, str) and not re.match(r"\d\d\d\d-\d\d", other):
                return FALSE
            unsupported("comparison of a symbolic time with text")
        return FALSE
    if ka == "num":
        if is_sym(a) or is_sym(b):
            return bt(a == b)
        return TRUE if a == b else FALSE
    if ka == "text":
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        return text_term(a) == text_term(b)
    if ka in ("time", "opaque"):
        return a.t == b.t
    return TRUE if a == b else FALSE


def lt_term(a, b):
    ka, kb = kind(a), kind(b)
    if ka != kb:
        rank = {"num": 0, "text": 1, "time": 1, "blob": 2}
        if ka in rank and kb in rank and rank[ka] != rank[kb]:
            return TRUE if rank[ka] < rank[kb] else FALSE
        unsupported("ordering %s against %s" % (ka, kb))
    if ka == "num":
        return bt(a < b)
    if ka == "time":
        return a.t < b.t
    if ka == "text":
        if isinstance(a, SymText):
            a = a.concrete()
        if isinstance(b, SymText):
            b = b.concrete()
        return TRUE if a < b else FALSE
    if ka == "blob":
        return TRUE if a < b else FALSE
    unsupported("ordering opaque values")


def vite(c, a, b):
    """if c then a else b, over SQL values."""
    c = bt(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    null = z3.If(c, null_of(a), null_of(b))
    va, vb = val_of(a), val_of(b)
    if va is None:
        return opt(null, vb)
    if vb is None:
        return opt(null, va)
    ka, kb = kind(va), kind(vb)
    if ka != kb:
        if current().fork(c):
            return a
        return b
    if ka == "num":
        ta, tb = term_of(va), term_of(vb)
        if ta.sort() != tb.sort():
            if ta.sort() == z3.IntSort():
                ta = z3.ToReal(ta)
            else:
                tb = z3.ToReal(tb)
        v = lift(z3.If(c, ta, tb))
    elif ka == "text":
        if isinstance(va, str) and va == vb:
            v = va
        else:
            v = SymText(z3.simplify(z3.If(c, text_term(va), text_term(vb))))
    elif ka in ("time", "opaque"):
        v = type(va)(z3.If(c, va.t, vb.t))
    else:
        if va == vb:
            v = va
        elif current().fork(c):
            return a
        else:
            return b
    return opt(null, v)


def adapt(x):
    """A bound parameter, as SQLite's Python binding would convert it."""
    t = type(x)
    if x is None or t in (SymInt, SymReal, SymText, SymTime, Opaque, Opt):
        return x
    if t is SymBool:
        return x._i()
    if hasattr(t, "__sqlvalue__"):
        return x.__sqlvalue__()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, datetime):
        return x.isoformat(" ")
    if isinstance(x, (int, float, str, bytes)):
        if isinstance(x, int) and not -(2 ** 63) <= x < 2 ** 63:
            raise OverflowError("Python int too large to convert to SQLite INTEGER")
        return x
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    raise sqlite3.InterfaceError("Error binding parameter: unsupported type %r" % (t,))


# -- parsing -------------------------------------------------------------------

_TOKEN = re.compile(
    r"""
    (?P<ws>\s+|--[^\n]*(?:\n|$)|/\*.*?\*/)
  | (?P<num>\d+\.\d+|\d+)
  | (?P<blob>[xX]'[0-9a-fA-F]*')
  | (?P<str>'(?:[^']|'')*')
  | (?P<dq>"(?:[^"]|"")*")
  | (?P<br>\[[^\]]*\]|`[^`]*`)
  | (?P<word>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op>\|\||<=|>=|<>|!=|==|[-+*/%(),.;=<>?])
    """,
    re.X | re.S,
)


class Tok:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v


def tokenize(sql):
    out = []
    i = 0
    while i < len(sql):
        m = _TOKEN.match(sql, i)
        if not m:
            unsupported("cannot tokenise %r" % (sql[i : i + 40],))
        i = m.end()
        k = m.lastgroup
        v = m.group()
        if k == "ws":
            continue
        if k == "str":
            out.append(Tok("str", v[1:-1].replace("''", "'")))
        elif k == "dq":
            out.append(Tok("dq", v[1:-1].replace('""', '"')))
        elif k == "br":
            out.append(Tok("id", v[1:-1]))
        elif k == "blob":
            out.append(Tok("blob", bytes.fromhex(v[2:-1])))
        elif k == "num":
            out.append(Tok("num", float(v) if "." in v else int(v)))
        elif k == "word":
            out.append(Tok("word", v))
        else:
            out.append(Tok("op", v))
    return out


class Parser:
    def __init__(self, sql):
        self.sql = sql
        self.t = tokenize(sql)
        self.i = 0
        self.params = 0

    # helpers
    def peek(self, n=0):
        j = self.i + n
        return self.t[j] if j < len(self.t) else Tok("end", None)

    def kw(self, *words, n=0):
        t = self.peek(n)
        return t.k == "word" and t.v.upper() in words

    def kws(self, *seq):
        return all(self.kw(w, n=j) for j, w in enumerate(seq))

    def take(self, *seq):
        if self.kws(*seq):
            self.i += len(seq)
            return True
        return False

    def need(self, *seq):
        if not self.take(*seq):
            self.fail("expected " + " ".join(seq))

    def op(self, v):
        t = self.peek()
        if t.k == "op" and t.v == v:
            self.i += 1
            return True
        return False

    def needop(self, v):
        if not self.op(v):
            self.fail("expected " + v)

    def fail(self, why):
        unsupported("%s near token %d of %r" % (why, self.i, self.sql[:300]))

    def ident(self):
        t = self.peek()
        if t.k in ("id", "word", "dq", "str"):
            self.i += 1
            return t.v
        self.fail("expected an identifier")

    def idents(self):
        self.needop("(")
        out = [self.ident()]
        while self.op(","):
            out.append(self.ident())
        self.needop(")")
        return out

    # statements
    def statement(self):
        s = self.statement1()
        self.op(";")
        if self.peek().k != "end":
            self.fail("trailing text")
        return s

    def statement1(self):
        if self.kw("EXPLAIN"):
            self.fail("EXPLAIN")
        if self.take("BEGIN"):
            while self.peek().k == "word":
                self.i += 1
            return ("begin",)
        if self.take("COMMIT") or self.take("END"):
            self.take("TRANSACTION")
            return ("commit",)
        if self.take("ROLLBACK"):
            self.take("TRANSACTION")
            if self.take("TO"):
                self.take("SAVEPOINT")
                return ("rollback_to", self.ident())
            return ("rollback",)
        if self.take("SAVEPOINT"):
            return ("savepoint", self.ident())
        if self.take("RELEASE"):
            self.take("SAVEPOINT")
            return ("release", self.ident())
        if self.take("PRAGMA"):
            name = self.ident()
            if self.op("="):
                t = self.peek()
                self.i += 1
                return ("pragma", name, t.v)
            if self.op("("):
                t = self.peek()
                self.i += 1
                self.needop(")")
                return ("pragma", name, t.v)
            return ("pragma", name, None)
        if self.kw("SELECT", "VALUES") or self.kw("WITH"):
            return self.select()
        if self.kw("INSERT", "REPLACE"):
            return self.insert()
        if self.take("UPDATE"):
            conflict = None
            if self.take("OR"):
                conflict = self.ident().upper()
            table = self.table_name()
            alias = table
            if self.take("AS"):
                alias = self.ident()
            self.need("SET")
            sets = []
            while True:
                if self.peek().k == "op" and self.peek().v == "(":
                    self.fail("row-valued SET")
                c = self.ident()
                self.needop("=")
                sets.append((c, self.expr()))
                if not self.op(","):
                    break
            if self.kw("FROM"):
                self.fail("UPDATE FROM")
            where = self.expr() if self.take("WHERE") else None
            return ("update", table, alias, sets, where, conflict)
        if self.take("DELETE", "FROM"):
            table = self.table_name()
            alias = table
            if self.take("AS"):
                alias = self.ident()
            where = self.expr() if self.take("WHERE") else None
            return ("delete", table, alias, where)
        if self.take("CREATE"):
            return self.create()
        if self.take("DROP", "TABLE"):
            ie = self.take("IF", "EXISTS")
            return ("drop", self.table_name(), ie)
        if self.take("ALTER", "TABLE"):
            table = self.table_name()
            if self.take("ADD"):
                self.take("COLUMN")
                return ("addcol", table, self.coldef())
            if self.take("RENAME", "TO"):
                return ("rename", table, self.ident())
            self.fail("ALTER TABLE")
        self.fail("unknown statement")

    def table_name(self):
        n = self.ident()
        if self.op("."):
            n = self.ident()
        return n

    def create(self):
        temp = self.take("TEMPORARY") or self.take("TEMP")
        if self.take("UNIQUE", "INDEX"):
            ine = self.take("IF", "NOT", "EXISTS")
            self.ident()
            self.need("ON")
            table = self.table_name()
            return ("uindex", table, self.idents())
        if self.take("INDEX"):
            return ("noop",) if self.skip() else None
        self.need("TABLE")
        ine = self.take("IF", "NOT", "EXISTS")
        name = self.table_name()
        if self.take("AS"):
            return ("create_as", name, self.select(), temp, ine)
        self.needop("(")
        cols, pks, uniques, fks = [], [], [], []
        while True:
            if self.take("PRIMARY", "KEY"):
                pks.append(self.idents())
            elif self.take("UNIQUE"):
                uniques.append(self.idents())
            elif self.take("FOREIGN", "KEY"):
                mine = self.idents()
                self.need("REFERENCES")
                t = self.table_name()
                theirs = self.idents() if self.peek().v == "(" else None
                self.fk_actions()
                fks.append((mine, t, theirs))
            elif self.take("CONSTRAINT"):
                self.ident()
                continue
            elif self.kw("CHECK"):
                self.fail("CHECK constraint")
            else:
                c = self.coldef()
                cols.append(c)
                if c.get("fk"):
                    fks.append(([c["name"]],) + c["fk"])
            if self.op(","):
                continue
            if self.peek().k == "op" and self.peek().v == ")":
                break
            # SQLite tolerates a missing comma between table constraints
            if self.kw("PRIMARY", "FOREIGN", "UNIQUE", "CONSTRAINT"):
                continue
            self.fail("table definition")
        self.needop(")")
        if self.take("WITHOUT", "ROWID"):
            pass
        return ("create", name, cols, pks, uniques, fks, temp, ine)

    def skip(self):
        self.i = len(self.t)
        return True

    def fk_actions(self):
        while self.kw("ON", "DEFERRABLE", "NOT", "INITIALLY", "MATCH"):
            self.fail("foreign key action")

    def coldef(self):
        c = {
            "name": self.ident(),
            "type": "",
            "default": None,
            "notnull": False,
            "pk": False,
            "auto": False,
            "unique": False,
        }
        ty = []
        stop = ("PRIMARY", "NOT", "NULL", "DEFAULT", "UNIQUE", "REFERENCES", "CHECK", "COLLATE", "CONSTRAINT")
        while self.peek().k == "word" and not self.kw(*stop):
            ty.append(self.peek().v)
            self.i += 1
        c["type"] = " ".join(ty).upper()
        while True:
            if self.take("PRIMARY", "KEY"):
                c["pk"] = True
                self.take("ASC")
                if self.take("AUTOINCREMENT"):
                    c["auto"] = True
            elif self.take("NOT", "NULL"):
                c["notnull"] = True
            elif self.take("NULL"):
                pass
            elif self.take("UNIQUE"):
                c["unique"] = True
            elif self.take("DEFAULT"):
                t = self.peek()
                if self.op("("):
                    c["default"] = self.expr()
                    self.needop(")")
                elif t.k in ("str", "dq"):
                    self.i += 1
                    c["default"] = ("lit", t.v)
                else:
                    c["default"] = self.unary()
            elif self.take("REFERENCES"):
                t = self.table_name()
                theirs = self.idents() if self.peek().v == "(" else None
                self.fk_actions()
                c["fk"] = (t, theirs)
            elif self.take("COLLATE"):
                self.ident()
            elif self.kw("CHECK"):
                self.fail("CHECK constraint")
            else:
                return c

    def insert(self):
        conflict = None
        if self.take("REPLACE"):
            conflict = "REPLACE"
        else:
            self.need("INSERT")
            if self.take("OR"):
                conflict = self.ident().upper()
        self.need("INTO")
        table = self.table_name()
        cols = None
        if self.peek().k == "op" and self.peek().v == "(":
            cols = self.idents()
        if self.take("DEFAULT", "VALUES"):
            src = ("values", [[]])
            cols = []
        elif self.take("VALUES"):
            rows = []
            while True:
                self.needop("(")
                r = [self.expr()]
                while self.op(","):
                    r.append(self.expr())
                self.needop(")")
                rows.append(r)
                if not self.op(","):
                    break
            src = ("values", rows)
        else:
            src = self.select()
        upsert = None
        if self.take("ON", "CONFLICT"):
            target = self.idents() if self.peek().v == "(" else None
            self.need("DO")
            if self.take("NOTHING"):
                conflict = "IGNORE"
            else:
                self.fail("upsert")
        if self.kw("RETURNING"):
            self.fail("RETURNING")
        return ("insert", table, cols, src, conflict)

    def select(self):
        if self.kw("WITH"):
            self.fail("WITH")
        core = self.select_core()
        compound = []
        while self.kw("UNION", "EXCEPT", "INTERSECT"):
            k = self.ident().upper()
            if k == "UNION" and self.take("ALL"):
                k = "UNION ALL"
            compound.append((k, self.select_core()))
        order = []
        if self.take("ORDER", "BY"):
            while True:
                e = self.expr()
                desc = False
                if self.take("DESC"):
                    desc = True
                else:
                    self.take("ASC")
                order.append((e, desc))
                if not self.op(","):
                    break
        limit = offset = None
        if self.take("LIMIT"):
            limit = self.expr()
            if self.take("OFFSET"):
                offset = self.expr()
            elif self.op(","):
                offset = limit
                limit = self.expr()
        return ("select", core, compound, order, limit, offset)

    def select_core(self):
        if self.take("VALUES"):
            self.fail("VALUES as a query")
        self.need("SELECT")
        distinct = self.take("DISTINCT")
        self.take("ALL")
        outs = []
        while True:
            if self.op("*"):
                outs.append(("star", None, None))
            elif (
                self.peek().k in ("id", "word", "dq")
                and self.peek(1).v == "."
                and self.peek(2).v == "*"
            ):
                outs.append(("star", self.ident(), None))
                self.i += 2
            else:
                e = self.expr()
                name = None
                if self.take("AS"):
                    name = self.ident()
                elif self.peek().k in ("id", "dq") :
                    name = self.ident()
                outs.append(("expr", e, name))
            if not self.op(","):
                break
        sources = []
        conds = []
        if self.take("FROM"):
            sources.append(self.source() + (None,))
            while True:
                if self.op(",") or self.take("CROSS", "JOIN"):
                    sources.append(self.source() + (None,))
                elif self.kw("JOIN", "INNER"):
                    self.take("INNER")
                    self.need("JOIN")
                    s = self.source()
                    if self.take("ON"):
                        conds.append(self.expr())
                    elif self.take("USING"):
                        self.fail("USING")
                    sources.append(s + (None,))
                elif self.kw("LEFT"):
                    self.need("LEFT")
                    self.take("OUTER")
                    self.need("JOIN")
                    s = self.source()
                    self.need("ON")
                    sources.append(s + (self.expr(),))
                elif self.kw("NATURAL", "RIGHT", "FULL"):
                    self.fail("join")
                else:
                    break
        where = self.expr() if self.take("WHERE") else None
        for c in conds:
            where = c if where is None else ("and", where, c)
        group = None
        having = None
        if self.take("GROUP", "BY"):
            group = [self.expr()]
            while self.op(","):
                group.append(self.expr())
            if self.take("HAVING"):
                having = self.expr()
        return (distinct, outs, sources, where, group, having)

    def source(self):
        if self.op("("):
            q = self.select()
            self.needop(")")
            self.take("AS")
            return ("query", q, self.ident())
        name = self.table_name()
        alias = name
        if self.take("AS"):
            alias = self.ident()
        elif self.peek().k in ("id", "dq") or (
            self.peek().k == "word"
            and self.peek().v.upper()
            not in (
                "WHERE ORDER LIMIT GROUP JOIN INNER LEFT CROSS NATURAL ON USING UNION EXCEPT INTERSECT SET OUTER HAVING RIGHT FULL"
            ).split()
        ):
            alias = self.ident()
        return ("table", name, alias)

    # expressions
    def expr(self):
        e = self.and_()
        while self.take("OR"):
            e = ("or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.take("AND"):
            e = ("and", e, self.not_())
        return e

    def not_(self):
        if self.kw("NOT") and not self.kws("NOT", "EXISTS"):
            self.i += 1
            return ("not", self.not_())
        return self.equality()

    def equality(self):
        e = self.relational()
        while True:
            t = self.peek()
            if t.k == "op" and t.v in ("=", "==", "!=", "<>"):
                self.i += 1
                r = self.relational()
                e = ("cmp", "=" if t.v in ("=", "==") else "!=", e, r)
            elif self.take("IS"):
                neg = self.take("NOT")
                r = self.relational()
                e = ("is", e, r)
                if neg:
                    e = ("not", e)
            elif self.take("ISNULL"):
                e = ("is", e, ("lit", None))
            elif self.take("NOTNULL") or self.kws("NOT", "NULL") and self.take("NOT", "NULL"):
                e = ("not", ("is", e, ("lit", None)))
            elif self.kw("IN") or self.kws("NOT", "IN"):
                neg = self.take("NOT")
                self.need("IN")
                if self.op("("):
                    if self.kw("SELECT"):
                        src = self.select()
                    else:
                        xs = []
                        if not (self.peek().v == ")" and self.peek().k == "op"):
                            xs = [self.expr()]
                            while self.op(","):
                                xs.append(self.expr())
                        src = ("list", xs)
                    self.needop(")")
                else:
                    src = ("tableref", self.table_name())
                e = ("in", e, src)
                if neg:
                    e = ("not", e)
            elif self.kw("BETWEEN") or self.kws("NOT", "BETWEEN"):
                neg = self.take("NOT")
                self.need("BETWEEN")
                a = self.relational()
                self.need("AND")
                b = self.relational()
                e = ("and", ("cmp", ">=", e, a), ("cmp", "<=", e, b))
                if neg:
                    e = ("not", e)
            elif self.kw("LIKE", "GLOB") or self.kws("NOT", "LIKE") or self.kws("NOT", "GLOB"):
                neg = self.take("NOT")
                f = "like" if self.take("LIKE") else "glob"
                if f == "glob":
                    self.need("GLOB")
                e = ("call", f, [self.relational(), e], False)
                if self.take("ESCAPE"):
                    e[2].append(self.relational())
                if neg:
                    e = ("not", e)
            elif self.kw("REGEXP", "MATCH"):
                self.fail("pattern matching")
            else:
                return e

    def relational(self):
        e = self.additive()
        while self.peek().k == "op" and self.peek().v in ("<", "<=", ">", ">="):
            o = self.peek().v
            self.i += 1
            e = ("cmp", o, e, self.additive())
        return e

    def additive(self):
        e = self.mult()
        while self.peek().k == "op" and self.peek().v in ("+", "-"):
            o = self.peek().v
            self.i += 1
            e = ("arith", o, e, self.mult())
        return e

    def mult(self):
        e = self.concat()
        while self.peek().k == "op" and self.peek().v in ("*", "/", "%"):
            o = self.peek().v
            self.i += 1
            e = ("arith", o, e, self.concat())
        return e

    def concat(self):
        e = self.unary()
        while self.op("||"):
            e = ("concat", e, self.unary())
        return e

    def unary(self):
        if self.op("-"):
            return ("arith", "-", ("lit", 0), self.unary())
        if self.op("+"):
            return self.unary()
        return self.primary()

    def primary(self):
        t = self.peek()
        if t.k == "num" or t.k == "str" or t.k == "blob":
            self.i += 1
            return ("lit", t.v)
        if self.op("?"):
            self.params += 1
            return ("param", self.params - 1)
        if self.op("("):
            if self.kw("SELECT"):
                q = self.select()
                self.needop(")")
                return ("scalar", q)
            e = self.expr()
            if self.peek().v == ",":
                self.fail("row value")
            self.needop(")")
            return e
        if self.take("NULL"):
            return ("lit", None)
        if self.take("TRUE"):
            return ("lit", 1)
        if self.take("FALSE"):
            return ("lit", 0)
        if self.take("CURRENT_TIMESTAMP"):
            self.fail("CURRENT_TIMESTAMP")
        neg = False
        if self.kws("NOT", "EXISTS"):
            self.i += 1
            neg = True
        if self.take("EXISTS"):
            self.needop("(")
            q = self.select()
            self.needop(")")
            e = ("exists", q)
            return ("not", e) if neg else e
        if self.take("CASE"):
            base = None
            if not self.kw("WHEN"):
                base = self.expr()
            arms = []
            while self.take("WHEN"):
                c = self.expr()
                self.need("THEN")
                arms.append((c if base is None else ("cmp", "=", base, c), self.expr()))
            other = self.expr() if self.take("ELSE") else ("lit", None)
            self.need("END")
            return ("case", arms, other)
        if self.take("CAST"):
            self.needop("(")
            e = self.expr()
            self.need("AS")
            ty = self.ident().upper()
            self.needop(")")
            return ("cast", e, ty)
        if t.k == "word" and self.peek(1).k == "op" and self.peek(1).v == "(":
            name = t.v.lower()
            self.i += 2
            distinct = self.take("DISTINCT")
            args = []
            if self.op("*"):
                args = []
            elif not (self.peek().k == "op" and self.peek().v == ")"):
                args = [self.expr()]
                while self.op(","):
                    args.append(self.expr())
            self.needop(")")
            return ("call", name, args, distinct)
        if t.k in ("id", "word", "dq"):
            self.i += 1
            if self.op("."):
                c = self.ident()
                return ("col", t.v, c, "id")
            return ("col", None, t.v, t.k)
        self.fail("expression")


_parsed = {}


def parse(sql):
    p = _parsed.get(sql)
    if p is None:
        ps = Parser(sql)
        p = _parsed[sql] = (ps.statement(), ps.params)
    return p


# functions whose result depends on nothing but their arguments
KNOWN = (
    "datetime date time strftime julianday like glob substr substring instr replace trim "
    "ltrim rtrim lower upper length hex quote typeof printf format round unicode char"
).split()

AGG = ("count", "sum", "max", "min", "total", "group_concat")


def has_agg(e):
    if isinstance(e, tuple):
        if e and e[0] == "call" and e[1] in AGG and (e[1] not in ("max", "min") or len(e[2]) == 1):
            return True
        if e and e[0] in ("scalar", "exists"):
            return False
        if e and e[0] == "in":
            return has_agg(e[1])
        return any(has_agg(x) for x in e if isinstance(x, (tuple, list)))
    if isinstance(e, list):
        return any(has_agg(x) for x in e)
    return False


# -- tables --------------------------------------------------------------------


class Table:
    def __init__(self, name, cols, keys, fks, rowid, auto, temp):
        self.name = name
        self.cols = cols  # list of column dicts
        self.keys = keys  # list of lists of column names (excluding the rowid)
        self.fks = fks  # (mine, table, theirs)
        self.rowid = rowid  # name of the rowid alias column or None
        self.auto = auto
        self.temp = temp
        self.rows = []

    def copy(self):
        t = Table(self.name, list(self.cols), list(self.keys), list(self.fks), self.rowid, self.auto, self.temp)
        t.rows = list(self.rows)
        return t

    def colnames(self):
        return [c["name"] for c in self.cols]

    def col(self, name):
        for c in self.cols:
            if c["name"].lower() == name.lower():
                return c
        return None


class Row:
    """Immutable: (guard, rowid, cells)"""

    __slots__ = ("g", "id", "v")

    def __init__(self, g, id, v):
        self.g, self.id, self.v = g, id, v


def dumped(text, ast):
    """A statement of a dump; executing its text has exactly this effect."""
    known = dumped_statements()
    text = text.replace("?", "?%d" % len(known)) if "?" in text else text[:-1] + " /* %d */;" % len(known)
    known[text.strip().rstrip(";")] = ast
    return text


def dumped_statements():
    ctx = current()
    if not hasattr(ctx, "_dumped"):
        ctx._dumped = {}
    return ctx._dumped


def dumped_value(x):
    if x is None:
        return "NULL"
    if isinstance(x, bytes):
        return "X'%s'" % x.hex()
    if type(x) is str:
        return "'%s'" % x.replace("'", "''").replace("?", "")
    if type(x) in (int, float):
        return repr(x)
    return "?"


class Database:
    def __init__(self):
        self.tables = {}  # lower name -> Table
        self.seq = Table("sqlite_sequence", [{"name": "name", "type": ""}, {"name": "seq", "type": ""}], [], [], None, False, False)
        self.committed = {}
        self.in_txn = False
        self.snap = None
        self.savepoints = []
        self.fk = False
        self.defer = False  # foreign keys are enforced at the commit
        self.log = []  # committed states, newest last
        self.commits = 0
        self.statements = 0
        self.fault = None  # callable(statement) -> exception or None
        self.on_commit = []
        self.on_statement = []
        self.last = None

    # state
    def capture(self):
        return {k: t.copy() for k, t in self.tables.items()}

    def restore(self, s):
        self.tables = {k: t.copy() for k, t in s.items()}

    def begin(self):
        if self.in_txn:
            raise sqlite3.OperationalError("cannot start a transaction within a transaction")
        self.snap = self.capture()
        self.in_txn = True

    def commit(self):
        if self.in_txn:
            if self.defer:
                for name in list(self.tables):
                    self.check_parent(name, True)
                    for fk in self.tables[name].fks:
                        if fk[1].lower() not in self.tables:
                            self.check_parent(fk[1], True)
            self.in_txn = False
            self.defer = False
            self.snap = None
            self.savepoints = []
            self.commits += 1
            for f in self.on_commit:
                f(self)

    def rollback(self):
        if self.in_txn:
            self.restore(self.snap)
            self.in_txn = False
            self.defer = False
            self.snap = None
            self.savepoints = []

    def find(self, name):
        t = self.tables.get(name.lower())
        if t is None:
            raise sqlite3.OperationalError("no such table: %s" % (name,))
        return t

    # populate directly
    def put(self, table, guard=True, rowid=None, **cells):
        t = self.find(table)
        names = t.colnames()
        cells = {k if k in names else k.replace("_", "-"): v for k, v in cells.items()}
        v = []
        for c in t.cols:
            if c["name"] in cells:
                v.append(cells.pop(c["name"]))
            else:
                v.append(self.default(c))
        if cells:
            raise KeyError(sorted(cells))
        if t.rowid is not None:
            i = t.colnames().index(t.rowid)
            if rowid is None:
                rowid = v[i]
            v[i] = rowid
        if rowid is None:
            rowid = len(t.rows) + 1
        t.rows.append(Row(bt(guard), rowid, tuple(v)))

    def default(self, c):
        e = c.get("default")
        if e is None:
            return None
        return Eval(self, (), []).val(e)

    # execution
    def execute(self, sql, params=()):
        known = getattr(current(), "_dumped", None)
        if known and sql.strip().rstrip(";") in known:
            ast, n = known[sql.strip().rstrip(";")], 0
        else:
            ast, n = parse(sql)
        params = [adapt(p) for p in params]
        if len(params) != n:
            raise sqlite3.ProgrammingError(
                "Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied."
                % (n, len(params))
            )
        self.statements += 1
        if self.fault is not None:
            e = self.fault(ast)
            if e is not None:
                raise e
        if ast[0] in ("insert", "update", "delete") and not self.in_txn:
            # the Python binding opens a transaction before changing rows
            self.begin()
        before = None
        if ast[0] in ("insert", "update", "delete", "create", "drop", "addcol", "create_as", "rename", "uindex", "recreate"):
            before = self.capture()
        try:
            r = getattr(self, "do_" + ast[0])(ast, params)
        except sqlite3.Error:
            if before is not None:
                self.restore(before)
            raise
        for f in self.on_statement:
            f(self)
        if before is not None and not self.in_txn:
            # autocommit
            self.commits += 1
            for f in self.on_commit:
                f(self)
        return r

    def do_noop(self, ast, params):
        return Result()

    def do_begin(self, ast, params):
        self.begin()
        return Result()

    def do_commit(self, ast, params):
        if not self.in_txn:
            raise sqlite3.OperationalError("cannot commit - no transaction is active")
        self.commit()
        return Result()

    def do_rollback(self, ast, params):
        if not self.in_txn:
            raise sqlite3.OperationalError("cannot rollback - no transaction is active")
        self.rollback()
        return Result()

    def do_savepoint(self, ast, params):
        if not self.in_txn:
            self.begin()
        self.savepoints.append((ast[1], self.capture()))
        return Result()

    def do_release(self, ast, params):
        while self.savepoints:
            n, _ = self.savepoints.pop()
            if n == ast[1]:
                return Result()
        raise sqlite3.OperationalError("no such savepoint: " + ast[1])

    def do_rollback_to(self, ast, params):
        while self.savepoints:
            n, s = self.savepoints[-1]
            if n == ast[1]:
                self.restore(s)
                return Result()
            self.savepoints.pop()
        raise sqlite3.OperationalError("no such savepoint: " + ast[1])

    def do_pragma(self, ast, params):
        _, name, value = ast
        name = name.lower()
        if name == "foreign_keys":
            if value is None:
                return Result(rows=[(TRUE, (int(self.fk),))])
            if not self.in_txn:
                self.fk = str(value).lower() in ("on", "1", "true", "yes")
            return Result()
        if name == "defer_foreign_keys":
            if self.in_txn:
                self.defer = str(value).lower() in ("on", "1", "true", "yes")
            return Result(rows=[])
        if name in ("journal_mode", "synchronous", "busy_timeout", "cache_size", "temp_store"):
            return Result(rows=[])
        unsupported("PRAGMA " + name)

    def do_create(self, ast, params):
        _, name, cols, pks, uniques, fks, temp, ine = ast
        if name.lower() in self.tables:
            if ine:
                return Result()
            raise sqlite3.OperationalError("table [%s] already exists" % (name,))
        rowid = None
        auto = False
        keys = [list(u) for u in uniques]
        for c in cols:
            if c["unique"]:
                keys.append([c["name"]])
            if c["pk"]:
                pks = list(pks) + [[c["name"]]]
                auto = auto or c["auto"]
        for pk in pks:
            if len(pk) == 1:
                c = [c for c in cols if c["name"].lower() == pk[0].lower()][0]
                if c["type"] == "INTEGER":
                    rowid = c["name"]
                    continue
            keys.append(list(pk))
        t = Table(name, [dict(c) for c in cols], keys, fks, rowid, auto, bool(temp))
        self.tables[name.lower()] = t
        if auto and "sqlite_sequence" not in self.tables:
            self.tables["sqlite_sequence"] = self.seq.copy()
        return Result()

    def do_create_as(self, ast, params):
        _, name, q, temp, ine = ast
        if name.lower() in self.tables:
            if ine:
                return Result()
            raise sqlite3.OperationalError("table [%s] already exists" % (name,))
        names, rows = Eval(self, params, []).query(q)
        t = Table(name, [{"name": n, "type": "", "default": None, "notnull": False} for n in names], [], [], None, False, bool(temp))
        for i, (g, vs) in enumerate(rows):
            t.rows.append(Row(g, i + 1, tuple(vs)))
        self.tables[name.lower()] = t
        return Result()

    def do_drop(self, ast, params):
        _, name, ie = ast
        if name.lower() not in self.tables:
            if ie:
                return Result()
            raise sqlite3.OperationalError("no such table: %s" % (name,))
        t = self.tables[name.lower()] = self.tables[name.lower()].copy()
        t.rows = []
        self.check_parent(name)
        del self.tables[name.lower()]
        if t.auto:
            s = self.tables["sqlite_sequence"] = self.tables["sqlite_sequence"].copy()
            s.rows = [r for r in s.rows if r.v[0] != t.name]
        return Result()

    def do_recreate(self, ast, params):
        t = ast[1].copy()
        if t.name.lower() in self.tables:
            raise sqlite3.OperationalError("table [%s] already exists" % (t.name,))
        self.tables[t.name.lower()] = t
        if t.auto and "sqlite_sequence" not in self.tables:
            self.tables["sqlite_sequence"] = self.seq.copy()
        return Result()

    def dump(self):
        """What ``iterdump`` yields."""
        yield "BEGIN TRANSACTION;"
        for k in sorted(self.tables, key=lambda k: self.tables[k].name):
            t = self.tables[k]
            if t.temp:
                continue
            if k == "sqlite_sequence":
                yield 'DELETE FROM "sqlite_sequence";'
            else:
                empty = t.copy()
                empty.rows = []
                cols = ", ".join("[%s] %s" % (c["name"], c["type"]) for c in t.cols)
                yield dumped("CREATE TABLE [%s] (%s);" % (t.name, cols), ("recreate", empty))
            for r in t.rows:
                g = z3.simplify(r.g)
                if z3.is_false(g):
                    continue
                text = 'INSERT INTO "%s" VALUES(%s);' % (t.name, ",".join(dumped_value(x) for x in r.v))
                src = ("rows", [(g, list(r.v))], r.id if t.rowid is None else None)
                yield dumped(text, ("insert", t.name, None, src, None))
        yield "COMMIT;"

    def do_rename(self, ast, params):
        t = self.find(ast[1]).copy()
        del self.tables[ast[1].lower()]
        t.name = ast[2]
        self.tables[ast[2].lower()] = t
        return Result()

    def do_uindex(self, ast, params):
        t = self.find(ast[1]).copy()
        t.keys = t.keys + [ast[2]]
        self.tables[ast[1].lower()] = t
        return Result()

    def do_addcol(self, ast, params):
        _, name, c = ast
        t = self.find(name).copy()
        if t.col(c["name"]) is not None:
            raise sqlite3.OperationalError("duplicate column name: %s" % (c["name"],))
        d = self.default(c)
        if c["notnull"] and d is None:
            raise sqlite3.OperationalError("Cannot add a NOT NULL column with default value NULL")
        t.cols = t.cols + [c]
        t.rows = [Row(r.g, r.id, r.v + (d,)) for r in t.rows]
        self.tables[name.lower()] = t
        return Result()

    def do_select(self, ast, params):
        names, rows = Eval(self, params, []).query(ast)
        return Result(rows=rows, names=names)

    # changing rows
    def affinity(self, c, v):
        """Only the conversions that can matter here."""
        if type(v) is Opt:
            return v
        ty = c["type"]
        if v is None:
            return v
        if "CHAR" in ty or "CLOB" in ty or "TEXT" in ty:
            if kind(v) == "num":
                if is_sym(v):
                    v = v.__index__()
                return str(v)
        elif ("INT" in ty or ty.startswith("NUM")) and isinstance(v, str) and re.match(r"^-?\d+$", v):
            return int(v)
        return v

    def do_insert(self, ast, params):
        _, name, cols, src, conflict = ast
        t = self.find(name).copy()
        names = t.colnames()
        if src[0] == "values":
            ev = Eval(self, params, [])
            rows = [(TRUE, [ev.val(e) for e in r]) for r in src[1]]
        elif src[0] == "rows":
            rows = src[1]
        else:
            _, rows = Eval(self, params, []).query(src)
        count = []
        lastrowid = None
        for g, vals in rows:
            if cols is None:
                if len(vals) != len(names):
                    raise sqlite3.OperationalError(
                        "table %s has %d columns but %d values were supplied" % (name, len(names), len(vals))
                    )
                given = dict(zip([n.lower() for n in names], vals))
            else:
                if len(vals) != len(cols):
                    raise sqlite3.OperationalError("%d values for %d columns" % (len(vals), len(cols)))
                for c in cols:
                    if t.col(c) is None and c.lower() != "rowid":
                        raise sqlite3.OperationalError("table %s has no column named %s" % (name, c))
                given = dict(zip([c.lower() for c in cols], vals))
            v = []
            rid = given.get("rowid") if t.rowid is None else None
            for c in t.cols:
                x = given[c["name"].lower()] if c["name"].lower() in given else self.default(c)
                v.append(self.affinity(c, x))
            if t.rowid is not None:
                rid = v[names.index(t.rowid)]
            if type(rid) is Opt:
                unsupported("possibly null rowid")
            fresh = rid is None
            if fresh:
                rid = self.next_rowid(t)
            if t.rowid is not None:
                v[names.index(t.rowid)] = rid
            for c, x in zip(t.cols, v):
                if c.get("notnull"):
                    self.maybe_raise(
                        AND(g, null_of(x)),
                        sqlite3.IntegrityError("NOT NULL constraint failed: %s.%s" % (t.name, c["name"])),
                        conflict,
                    )
            g, t = self.resolve_conflicts(t, g, v, rid, conflict, not fresh, None)
            t.rows.append(Row(g, rid, tuple(v)))
            lastrowid = rid
            if t.auto:
                self.note_seq(t, g, rid)
            count.append(g)
            self.tables[name.lower()] = t
            self.check_child(t, v, g)
        self.last = lastrowid
        return Result(rowcount=nsum(count), lastrowid=lastrowid)

    def next_rowid(self, t):
        m = 0
        for r in t.rows:
            m = vite(AND(r.g, bt(r.id > m)), r.id, m)
        if t.auto:
            s = self.tables["sqlite_sequence"]
            for r in s.rows:
                if r.v[0] == t.name:
                    m = vite(AND(r.g, bt(r.v[1] > m)), r.v[1], m)
        return m + 1

    def note_seq(self, t, g, rid):
        s = self.tables["sqlite_sequence"].copy()
        for i, r in enumerate(s.rows):
            if r.v[0] == t.name:
                s.rows[i] = Row(
                    OR(r.g, g),
                    r.id,
                    (t.name, vite(AND(g, OR(NOT(r.g), bt(rid > r.v[1]))), rid, r.v[1])),
                )
                break
        else:
            s.rows.append(Row(g, len(s.rows) + 1, (t.name, rid)))
        self.tables["sqlite_sequence"] = s

    def maybe_raise(self, cond, exc, conflict=None):
        if z3.is_false(cond):
            return
        if current().fork(cond):
            raise exc

    def resolve_conflicts(self, t, g, v, rid, conflict, check_rowid, skip):
        """:return: the guard the new row gets and the (new) table"""
        names = [n.lower() for n in t.colnames()]
        t = t.copy()
        tests = []
        for key in t.keys:
            idx = [names.index(k.lower()) for k in key]
            tests.append(("%s.%s" % (t.name, key[0]), lambda r, idx=idx: AND(*[
                AND(NOT(null_of(r.v[i])), NOT(null_of(v[i])), eq_nn(r.v[i], v[i])) for i in idx
            ])))
        if check_rowid:
            tests.append(("%s.%s" % (t.name, t.rowid or "rowid"), lambda r: eq_nn(r.id, rid)))
        for what, test in tests:
            for j, r in enumerate(t.rows):
                if j == skip:
                    continue
                c = AND(r.g, g, test(r))
                if z3.is_false(z3.simplify(c)):
                    continue
                if conflict == "IGNORE":
                    g = AND(g, NOT(AND(r.g, test(r))))
                elif conflict == "REPLACE":
                    t.rows[j] = Row(AND(r.g, NOT(AND(g, test(r)))), r.id, r.v)
                elif conflict in (None, "ABORT", "FAIL", "ROLLBACK"):
                    if conflict in ("FAIL", "ROLLBACK"):
                        unsupported("OR " + conflict)
                    self.maybe_raise(c, sqlite3.IntegrityError("UNIQUE constraint failed: " + what))
                else:
                    unsupported("OR " + conflict)
        return g, t

    def parent_has(self, fk, vals):
        _, pname, theirs = fk
        p = self.find(pname)
        if theirs is None:
            theirs = p.keys[0] if p.rowid is None else [p.rowid]
        names = [n.lower() for n in p.colnames()]
        idx = [names.index(k.lower()) for k in theirs]
        return OR(*[
            AND(r.g, *[AND(NOT(null_of(r.v[i])), eq_nn(r.v[i], x)) for i, x in zip(idx, vals)])
            for r in p.rows
        ])

    def check_child(self, t, v, g):
        if not self.fk:
            return
        for fk in t.fks:
            self.find(fk[1])
        if self.defer:
            return
        names = [n.lower() for n in t.colnames()]
        for fk in t.fks:
            vals = [v[names.index(k.lower())] for k in fk[0]]
            anynull = OR(*[null_of(x) for x in vals])
            bad = AND(g, NOT(anynull), NOT(self.parent_has(fk, vals)))
            self.maybe_raise(z3.simplify(bad), sqlite3.IntegrityError("FOREIGN KEY constraint failed"))

    def check_parent(self, name, final=False):
        """After rows left ``name`` or changed keys: every child still has
        its parent."""
        if not self.fk or (self.defer and not final):
            return
        for t in self.tables.values():
            for fk in t.fks:
                if fk[1].lower() != name.lower():
                    continue
                names = [n.lower() for n in t.colnames()]
                for r in t.rows:
                    vals = [r.v[names.index(k.lower())] for k in fk[0]]
                    anynull = OR(*[null_of(x) for x in vals])
                    bad = AND(r.g, NOT(anynull), NOT(self.parent_has(fk, vals)))
                    self.maybe_raise(z3.simplify(bad), sqlite3.IntegrityError("FOREIGN KEY constraint failed"))

    def do_update(self, ast, params):
        _, name, alias, sets, where, conflict = ast
        t = self.find(name).copy()
        names = [n.lower() for n in t.colnames()]
        for c, _ in sets:
            if c.lower() not in names:
                raise sqlite3.OperationalError("no such column: %s" % (c,))
        count = []
        keycols = set(k.lower() for key in t.keys for k in key)
        setcols = set(c.lower() for c, _ in sets)
        rowid_set = t.rowid is not None and t.rowid.lower() in setcols
        news = []
        for r in t.rows:
            scope = [(alias, t, r)]
            ev = Eval(self, params, [scope])
            c = AND(r.g, ev.truth(where)) if where is not None else r.g
            c = z3.simplify(c)
            if z3.is_false(c):
                news.append((r, None, None))
                continue
            v = list(r.v)
            for col, e in sets:
                i = names.index(col.lower())
                x = self.affinity(t.cols[i], ev.val(e))
                if t.cols[i].get("notnull"):
                    self.maybe_raise(
                        AND(c, null_of(x)),
                        sqlite3.IntegrityError("NOT NULL constraint failed: %s.%s" % (t.name, col)),
                    )
                v[i] = x
            news.append((r, c, v))
        for j, (r, c, v) in enumerate(news):
            if c is None:
                continue
            merged = tuple(vite(c, n, o) for n, o in zip(v, r.v))
            rid = r.id
            if rowid_set:
                rid = merged[names.index(t.rowid.lower())]
            g = r.g
            if keycols & setcols or rowid_set:
                if conflict not in (None, "ABORT"):
                    unsupported("UPDATE OR " + conflict)
                self.resolve_conflicts(t, c, merged, rid, conflict, rowid_set, j)
            t.rows[j] = Row(g, rid, merged)
            count.append(c)
        self.tables[name.lower()] = t
        for j, (r, c, v) in enumerate(news):
            if c is not None and any(k.lower() in setcols for fk in t.fks for k in fk[0]):
                self.check_child(t, t.rows[j].v, c)
        if keycols & setcols or rowid_set:
            self.check_parent(name)
        return Result(rowcount=nsum(count))

    def do_delete(self, ast, params):
        _, name, alias, where = ast
        t = self.find(name).copy()
        count = []
        rows = []
        for r in t.rows:
            c = AND(r.g, Eval(self, params, [[(alias, t, r)]]).truth(where)) if where is not None else r.g
            c = z3.simplify(c)
            count.append(c)
            g = z3.simplify(AND(r.g, NOT(c)))
            if not z3.is_false(g):
                rows.append(Row(g, r.id, r.v))
        t.rows = rows
        self.tables[name.lower()] = t
        self.check_parent(name)
        return Result(rowcount=nsum(count))


def eq_nn(a, b):
    """Equality ignoring null-ness (callers test it separately)."""
    a, b = val_of(a), val_of(b)
    if a is None or b is None:
        return FALSE
    return eq_term(a, b)


def nsum(conds):
    terms = []
    n = 0
    for c in conds:
        c = z3.simplify(c)
        if z3.is_true(c):
            n += 1
        elif not z3.is_false(c):
            terms.append(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
    if not terms:
        return n
    return lift(z3.Sum(*(terms + [z3.IntVal(n)])))


class Result:
    def __init__(self, rows=None, names=None, rowcount=-1, lastrowid=None):
        self.rows = rows
        self.names = names
        self.rowcount = rowcount
        self.lastrowid = lastrowid


class Eval:
    """Expression evaluation; ``scopes`` is a stack of FROM bindings."""

    def __init__(self, db, params, scopes):
        self.db = db
        self.params = params
        self.scopes = scopes
        self.group = None

    # conditions: (true, false) terms
    def cond(self, e):
        k = e[0]
        if k == "and":
            a, b = self.cond(e[1]), self.cond(e[2])
            return AND(a[0], b[0]), OR(a[1], b[1])
        if k == "or":
            a, b = self.cond(e[1]), self.cond(e[2])
            return OR(a[0], b[0]), AND(a[1], b[1])
        if k == "not":
            a = self.cond(e[1])
            return a[1], a[0]
        if k == "cmp":
            a, b = self.val(e[2]), self.val(e[3])
            a, b = self.cmp_affinity(e[2], a, e[3], b)
            nn = AND(NOT(null_of(a)), NOT(null_of(b)))
            a, b = val_of(a), val_of(b)
            if a is None or b is None:
                return FALSE, FALSE
            o = e[1]
            if o in ("=", "!="):
                t = eq_term(a, b)
                if o == "!=":
                    t = NOT(t)
            elif o == "<":
                t = lt_term(a, b)
            elif o == ">":
                t = lt_term(b, a)
            elif o == "<=":
                t = NOT(lt_term(b, a))
            else:
                t = NOT(lt_term(a, b))
            return AND(nn, t), AND(nn, NOT(t))
        if k == "is":
            a, b = self.val(e[1]), self.val(e[2])
            na, nb = null_of(a), null_of(b)
            t = OR(AND(na, nb), AND(NOT(na), NOT(nb), eq_nn(a, b)))
            return t, NOT(t)
        if k == "in":
            a = self.val(e[1])
            return self.in_(a, e[2])
        if k == "exists":
            _, rows = self.query(e[1])
            t = OR(*[g for g, _ in rows])
            return t, NOT(t)
        v = self.val(e)
        n = null_of(v)
        x = val_of(v)
        if x is None:
            return FALSE, FALSE
        if kind(x) != "num":
            if isinstance(x, str):
                m = re.match(r"^\s*(-?\d+)", x)
                x = int(m.group(1)) if m else 0
            else:
                unsupported("truth of a %s" % kind(x))
        t = bt(x != 0)
        return AND(NOT(n), t), AND(NOT(n), NOT(t))

    def truth(self, e):
        return self.cond(e)[0]

    def cmp_affinity(self, ea, a, eb, b):
        """A numeric column compared with digits in text, and the reverse."""
        return a, b

    def in_(self, a, src):
        if src[0] == "list":
            xs = [(TRUE, self.val(e)) for e in src[1]]
        elif src[0] == "tableref":
            t = self.db.find(src[1])
            xs = [(r.g, r.v[0]) for r in t.rows]
        else:
            names, rows = self.query(src)
            if len(names) != 1:
                raise sqlite3.OperationalError("sub-select returns %d columns - expected 1" % len(names))
            xs = [(g, v[0]) for g, v in rows]
        an = null_of(a)
        hit = OR(*[AND(g, NOT(null_of(x)), eq_nn(a, x)) for g, x in xs])
        anynull = OR(*[AND(g, null_of(x)) for g, x in xs])
        nonempty = OR(*[g for g, _ in xs])
        t = AND(NOT(an), hit)
        f = OR(NOT(nonempty), AND(NOT(an), NOT(hit), NOT(anynull)))
        return t, f

    # values
    def val(self, e):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "param":
            return self.params[e[1]]
        if k == "col":
            return self.column(e)
        if k in ("and", "or", "not", "cmp", "is", "in", "exists"):
            t, f = self.cond(e)
            if z3.is_true(t):
                return 1
            if z3.is_true(f):
                return 0
            return opt(NOT(OR(t, f)), lift(z3.If(t, z3.IntVal(1), z3.IntVal(0))))
        if k == "arith":
            a, b = self.val(e[2]), self.val(e[3])
            n = OR(null_of(a), null_of(b))
            a, b = val_of(a), val_of(b)
            if a is None or b is None:
                return None
            if kind(a) != "num" or kind(b) != "num":
                unsupported("arithmetic on %s" % ((kind(a), kind(b)),))
            if e[1] == "+":
                r = a + b
            elif e[1] == "-":
                r = a - b
            elif e[1] == "*":
                r = a * b
            else:
                if current().fork(bt(b == 0)):
                    return None
                if e[1] == "/":
                    # truncates towards zero
                    r = vite(bt((a < 0) != (b < 0)), -(abs(a) // abs(b)), abs(a) // abs(b))
                else:
                    r = vite(bt(a < 0), -(abs(a) % abs(b)), abs(a) % abs(b))
            return opt(n, r)
        if k == "concat":
            a, b = self.val(e[1]), self.val(e[2])
            n = OR(null_of(a), null_of(b))
            a, b = val_of(a), val_of(b)
            if a is None or b is None:
                return None
            if type(a) is SymText:
                a = a.concrete()
            if type(b) is SymText:
                b = b.concrete()
            if type(a) in (SymTime, Opaque) or type(b) in (SymTime, Opaque):
                if type(a) is Opaque and isinstance(b, str):
                    return opt(n, Opaque(func("concat:" + b)(a.t)))
                unsupported("concatenation")
            if not isinstance(a, (str, int)) or not isinstance(b, (str, int)):
                unsupported("concatenation")
            return opt(n, str(a) + str(b))
        if k == "case":
            r = self.val(e[2])
            for c, x in reversed(e[1]):
                r = vite(self.truth(c), self.val(x), r)
            return r
        if k == "cast":
            v = self.val(e[1])
            x = val_of(v)
            if x is None:
                return None
            if "INT" in e[2] and kind(x) == "num":
                return v
            if "TEXT" in e[2] and kind(x) in ("text", "time"):
                return v
            unsupported("CAST")
        if k == "scalar":
            _, rows = self.query(e[1])
            r = None
            for g, v in reversed(rows):
                r = vite(g, v[0], r)
            return r
        if k == "call":
            return self.call(e)
        unsupported("expression %r" % (e[:2],))

    def column(self, e):
        _, alias, name, how = e
        low = name.lower()
        for scope in reversed(self.scopes):
            hits = []
            for a, t, r in scope:
                if alias is not None and a.lower() != alias.lower():
                    continue
                for i, c in enumerate(t.cols):
                    if c["name"].lower() == low:
                        hits.append(r.v[i] if r is not None else None)
                        break
                else:
                    if low == "rowid" or low == "_rowid_" or low == "oid":
                        hits.append(r.id if r is not None else None)
            if len(hits) > 1:
                raise sqlite3.OperationalError("ambiguous column name: %s" % name)
            if hits:
                return hits[0]
        if how == "dq":
            return name
        raise sqlite3.OperationalError(
            "no such column: %s" % (name if alias is None else alias + "." + name)
        )

    def call(self, e):
        _, name, args, distinct = e
        if name in AGG and (name not in ("max", "min") or len(args) == 1):
            if self.group is None:
                raise sqlite3.OperationalError("misuse of aggregate: %s()" % name)
            return self.aggregate(name, args, distinct)
        if name in ("coalesce", "ifnull"):
            r = None
            for a in reversed(args):
                v = self.val(a)
                r = vite(null_of(v), r, val_of(v)) if v is not None else r
            return r
        if name == "last_insert_rowid":
            return self.db.last or 0
        if name == "nullif":
            a, b = self.val(args[0]), self.val(args[1])
            same = AND(NOT(null_of(a)), NOT(null_of(b)), eq_nn(a, b))
            return vite(same, None, a)
        if name in ("max", "min"):
            vs = [self.val(a) for a in args]
            n = OR(*[null_of(v) for v in vs])
            r = val_of(vs[0])
            for v in vs[1:]:
                x = val_of(v)
                if r is None or x is None:
                    return None
                r = vite(lt_term(r, x) if name == "max" else lt_term(x, r), x, r)
            return opt(n, r)
        if name == "abs":
            v = self.val(args[0])
            return None if val_of(v) is None else opt(null_of(v), abs(val_of(v)))
        if name in ("lower", "upper", "length", "typeof", "quote", "hex"):
            v = self.val(args[0])
            x = val_of(v)
            if isinstance(x, SymText):
                x = x.concrete()
            if type(v) is Opt:
                unsupported(name)
            if name == "typeof":
                return {"num": "integer", "text": "text", "time": "text", "blob": "blob"}[kind(x)] if x is not None else "null"
            if x is None:
                return None
            if name == "length" and isinstance(x, (str, bytes)):
                return len(x)
            if name in ("lower", "upper") and isinstance(x, str):
                return getattr(x, name)()
            return self.known(name, [x])
        if name == "datetime":
            vs = [self.val(a) for a in args]
            v = vs[0]
            if val_of(v) is None:
                return None
            x = val_of(v)
            rest = "|".join(str(a) for a in vs[1:])
            if type(x) is Opaque:
                return opt(null_of(v), Opaque(func("datetime:" + rest)(x.t)))
        return self.known(name, [give(self.val(a)) for a in args])

    def known(self, name, args):
        """A function of values that are not symbolic."""
        if name not in KNOWN or not all(
            a is None or type(a) in (str, int, float, bytes) for a in args
        ):
            unsupported("function %s()" % name)
        conn = sqlite3.connect(":memory:")
        try:
            return conn.execute(
                "SELECT %s(%s)" % (name, ", ".join("?" for _ in args)), args
            ).fetchone()[0]
        finally:
            conn.close()

    def aggregate(self, name, args, distinct):
        rows = []
        for g, scope in self.group:
            ev = Eval(self.db, self.params, self.scopes[:-1] + [scope])
            rows.append((g, ev.val(args[0]) if args else 1))
        if distinct:
            out = []
            for i, (g, v) in enumerate(rows):
                dup = OR(*[AND(h, NOT(null_of(w)), eq_nn(v, w)) for h, w in rows[:i]])
                out.append((AND(g, NOT(dup)), v))
            rows = out
        if name == "count":
            return nsum([AND(g, NOT(null_of(v))) for g, v in rows])
        live = [(AND(g, NOT(null_of(v))), val_of(v)) for g, v in rows if val_of(v) is not None]
        none = NOT(OR(*[g for g, _ in live]))
        if name in ("sum", "total"):
            s = 0
            for g, v in live:
                if kind(v) != "num":
                    unsupported("sum of %s" % kind(v))
                s = s + vite(g, v, 0)
            return s if name == "total" else opt(none, s)
        if name in ("max", "min"):
            if not live:
                return None
            r = live[0][1]
            have = live[0][0]
            for g, v in live[1:]:
                better = lt_term(r, v) if name == "max" else lt_term(v, r)
                r = vite(AND(g, OR(NOT(have), better)), v, r)
                have = OR(have, g)
            return opt(none, val_of(r)) if val_of(r) is not None else None
        unsupported("aggregate %s" % name)

    # queries: (names, [(guard, values)])
    def query(self, q):
        _, core, compound, order, limit, offset = q
        names, rows = self.core(core)
        for k, c in compound:
            n2, r2 = self.core(c)
            if k == "UNION ALL":
                rows = rows + r2
            elif k == "UNION":
                rows = distinct_rows([(g, v, s) for g, v, s in rows + r2])
            elif k == "EXCEPT":
                rows = [
                    (AND(g, NOT(OR(*[AND(h, rows_equal(v, w)) for h, w, _ in r2]))), v, s)
                    for g, v, s in distinct_rows(rows)
                ]
            else:
                rows = [
                    (AND(g, OR(*[AND(h, rows_equal(v, w)) for h, w, _ in r2])), v, s)
                    for g, v, s in distinct_rows(rows)
                ]
        if order or limit is not None or offset is not None:
            rows = self.settle(rows)
            if order:
                rows = self.sort(rows, names, order)
            if offset is not None:
                o = Eval(self.db, self.params, self.scopes).val(offset)
                k = 0
                while k < len(rows) and bool(mkbool(bt(o > k))):
                    k += 1
                rows = rows[k:]
            if limit is not None:
                n = Eval(self.db, self.params, self.scopes).val(limit)
                if n is not None:
                    if kind(n) != "num":
                        raise sqlite3.IntegrityError("datatype mismatch")
                    if not current().fork(bt(n < 0)):
                        k = 0
                        while k < len(rows) and current().fork(bt(n > k)):
                            k += 1
                        rows = rows[:k]
        return names, [(g, v) for g, v, _ in rows]

    def settle(self, rows):
        """Decide which rows exist."""
        out = []
        for g, v, s in rows:
            if current().fork(z3.simplify(g)):
                out.append((TRUE, v, s))
        return out

    def sort(self, rows, names, order):
        keyed = []
        for g, v, scope in rows:
            ks = []
            for e, desc in order:
                if e[0] == "lit" and isinstance(e[1], int):
                    k = v[e[1] - 1]
                elif e[0] == "col" and e[1] is None and e[2].lower() in [n.lower() for n in names]:
                    k = v[[n.lower() for n in names].index(e[2].lower())]
                else:
                    k = Eval(self.db, self.params, self.scopes + [scope]).val(e)
                ks.append((k, desc))
            keyed.append((ks, (g, v, scope)))

        def before(a, b):
            for (x, desc), (y, _) in zip(a, b):
                nx = current().fork(null_of(x))
                ny = current().fork(null_of(y))
                if nx or ny:
                    if nx and ny:
                        continue
                    return nx != desc if nx else desc
                x, y = val_of(x), val_of(y)
                if current().fork(lt_term(x, y)):
                    return not desc
                if current().fork(lt_term(y, x)):
                    return desc
            return False

        out = []
        for k, r in keyed:
            i = len(out)
            while i > 0 and before(k, out[i - 1][0]):
                i -= 1
            out.insert(i, (k, r))
        return [r for _, r in out]

    def core(self, c):
        distinct, outs, sources, where, group, having = c
        bind = [(TRUE, [])]
        for kind_, what, alias, on in sources:
            if kind_ == "table":
                if what.lower() == "sqlite_master" or what.lower() == "sqlite_schema":
                    t = self.master()
                else:
                    t = self.db.find(what)
            else:
                names, rows = self.query(what)
                t = Table(alias, [{"name": n, "type": ""} for n in names], [], [], None, False, True)
                t.rows = [Row(g, i + 1, tuple(v)) for i, (g, v) in enumerate(rows)]
            nxt = []
            for g, scope in bind:
                any_ = []
                for r in t.rows:
                    s = scope + [(alias, t, r)]
                    c_ = AND(g, r.g)
                    if on is not None:
                        c_ = AND(c_, Eval(self.db, self.params, self.scopes + [s]).truth(on))
                        any_.append(c_)
                    nxt.append((c_, s))
                if on is not None:
                    nxt.append((AND(g, NOT(OR(*any_))), scope + [(alias, t, None)]))
                elif not t.rows:
                    pass
            if not nxt:
                self.empty_scope = [(a, tt, None) for _, sc in bind[:1] for a, tt, _ in sc] + [(alias, t, None)]
            bind = nxt
        rows = []
        for g, scope in bind:
            if where is not None:
                g = AND(g, Eval(self.db, self.params, self.scopes + [scope]).truth(where))
            g = z3.simplify(g)
            if not z3.is_false(g):
                rows.append((g, scope))
        empty = self.scope_of(sources)
        names = self.names(outs, empty)
        if group is None and any(o[0] == "expr" and has_agg(o[1]) for o in outs):
            ev = Eval(self.db, self.params, self.scopes + [empty])
            ev.group = rows
            if rows and any(o[0] == "expr" and not has_agg(o[1]) for o in outs):
                # bare columns beside an aggregate: taken from some row
                ev.scopes = self.scopes + [rows[0][1]]
            return names, [(TRUE, [ev.val(o[1]) for o in outs], empty)]
        if group is not None:
            return names, self.grouped(rows, outs, group, having)
        out = []
        for g, scope in rows:
            out.append((g, self.outputs(outs, scope), scope))
        if not bind:
            # check the names even when there is nothing to look at
            self.outputs(outs, empty)
            if where is not None:
                Eval(self.db, self.params, self.scopes + [empty]).cond(where)
        if distinct:
            out = distinct_rows(out)
        return names, out

    def grouped(self, rows, outs, group, having):
        keys = [
            [Eval(self.db, self.params, self.scopes + [s]).val(e) for e in group] for _, s in rows
        ]
        res = []
        for i, (g, s) in enumerate(rows):
            first = AND(g, NOT(OR(*[AND(rows[j][0], rows_equal(keys[j], keys[i])) for j in range(i)])))
            first = z3.simplify(first)
            if z3.is_false(first):
                continue
            members = [(AND(h, rows_equal(keys[j], keys[i])), t) for j, (h, t) in enumerate(rows)]
            ev = Eval(self.db, self.params, self.scopes + [s])
            ev.group = members
            if having is not None:
                first = AND(first, ev.truth(having))
            res.append((first, [ev.val(o[1]) for o in outs], s))
        return res

    def scope_of(self, sources):
        s = []
        for kind_, what, alias, on in sources:
            if kind_ == "table":
                t = self.master() if what.lower() in ("sqlite_master", "sqlite_schema") else self.db.find(what)
            else:
                names, _ = self.query(what)
                t = Table(alias, [{"name": n, "type": ""} for n in names], [], [], None, False, True)
            s.append((alias, t, None))
        return s

    def master(self):
        t = Table("sqlite_master", [{"name": n, "type": ""} for n in ("type", "name", "tbl_name", "sql")], [], [], None, False, False)
        for i, x in enumerate(self.db.tables.values()):
            if not x.temp:
                t.rows.append(Row(TRUE, i + 1, ("table", x.name, x.name, None)))
        return t

    def names(self, outs, scope):
        out = []
        for o in outs:
            if o[0] == "star":
                for a, t, _ in scope:
                    if o[1] is None or a.lower() == o[1].lower():
                        out.extend(t.colnames())
            else:
                e = o[1]
                out.append(o[2] or (e[2] if e[0] == "col" else "expr"))
        return out

    def outputs(self, outs, scope):
        v = []
        for o in outs:
            if o[0] == "star":
                for a, t, r in scope:
                    if o[1] is None or a.lower() == o[1].lower():
                        v.extend(r.v if r is not None else [None] * len(t.cols))
            else:
                v.append(Eval(self.db, self.params, self.scopes + [scope]).val(o[1]))
        return v


def rows_equal(a, b):
    return AND(*[
        OR(AND(null_of(x), null_of(y)), AND(NOT(null_of(x)), NOT(null_of(y)), eq_nn(x, y)))
        for x, y in zip(a, b)
    ])


def distinct_rows(rows):
    out = []
    for i, (g, v, s) in enumerate(rows):
        dup = OR(*[AND(h, rows_equal(v, w)) for h, w, _ in rows[:i]])
        g = z3.simplify(AND(g, NOT(dup)))
        if not z3.is_false(g):
            out.append((g, v, s))
    return out


# -- the DB-API face -----------------------------------------------------------


class Cursor:
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self.r = None
        self.queue = None
        self.rowcount = -1
        self.lastrowid = None

    def execute(self, sql, params=()):
        r = self.connection.db.execute(sql, tuple(params))
        self._took(r)
        return self

    def _took(self, r):
        self.rowcount = r.rowcount
        if r.lastrowid is not None:
            self.lastrowid = r.lastrowid
        self.queue = list(r.rows) if r.rows is not None else []
        self.description = [(n,) for n in r.names] if r.names else None

    def executemany(self, sql, seq):
        total = 0
        for p in seq:
            r = self.connection.db.execute(sql, tuple(p))
            total = total + r.rowcount
        self.rowcount = total
        self.queue = []
        return self

    def executescript(self, sql):
        unsupported("executescript")

    def _next(self):
        while self.queue:
            g, v = self.queue.pop(0)
            if current().fork(z3.simplify(g)):
                return tuple(give(x) for x in v)
        return None

    def fetchone(self):
        return self._next()

    def fetchall(self):
        out = []
        while True:
            r = self._next()
            if r is None:
                return out
            out.append(r)

    def fetchmany(self, n=1):
        out = []
        while len(out) < n:
            r = self._next()
            if r is None:
                break
            out.append(r)
        return out

    def __iter__(self):
        while True:
            r = self._next()
            if r is None:
                return
            yield r

    def close(self):
        pass


def give(v):
    """Hand a cell to Python."""
    if type(v) is Opt:
        if current().fork(v.null):
            return None
        v = v.val
    if type(v) is SymText:
        return v.concrete()
    return v


class Connection:
    """Stands for a sqlite3.Connection."""

    row_factory = None

    def __init__(self, db=None, isolation_level="IMMEDIATE"):
        self.db = db or Database()
        self.isolation_level = isolation_level
        self.closed = False

    @property
    def in_transaction(self):
        return self.db.in_txn

    def cursor(self, factory=None):
        return Cursor(self) if factory is None else factory(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def commit(self):
        if self.db.in_txn and self.db.fault is not None:
            # a commit that fails leaves the transaction open
            e = self.db.fault(("commit",))
            if e is not None:
                raise e
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        self.db.rollback()
        self.closed = True

    def iterdump(self):
        return self.db.dump()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False


_funcs = {}


def func(name):
    if name not in _funcs:
        _funcs[name] = z3.Function(name, z3.IntSort(), z3.IntSort())
    return _funcs[name]


# -- looking at a state ---------------------------------------------------------


def has_row(tables, table, **cells):
    """The condition that a row with these cells exists."""
    t = tables.get(table.lower())
    if t is None:
        return FALSE
    names = t.colnames()
    want = [(names.index(k if k in names else k.replace("_", "-")), v) for k, v in cells.items()]
    out = []
    for r in t.rows:
        cs = [r.g]
        for i, v in want:
            x = r.v[i]
            if v is None:
                cs.append(null_of(x))
            else:
                cs.append(AND(NOT(null_of(x)), NOT(null_of(v)), eq_nn(x, v)))
        out.append(AND(*cs))
    return OR(*out)


def count_rows(tables, table, **cells):
    t = tables[table.lower()]
    names = t.colnames()
    want = [(names.index(k if k in names else k.replace("_", "-")), v) for k, v in cells.items()]
    conds = []
    for r in t.rows:
        cs = [r.g]
        for i, v in want:
            x = r.v[i]
            cs.append(null_of(x) if v is None else AND(NOT(null_of(x)), eq_nn(x, v)))
        conds.append(AND(*cs))
    return nsum(conds)


def same_table(a, b, ignore=()):
    """The condition that two versions of a table hold the same rows (as
    multisets, for tables without duplicate rows)."""
    ra, rb = a.rows if a else [], b.rows if b else []
    if a and b and [n for n in a.colnames()] != [n for n in b.colnames()]:
        return FALSE

    def inside(xs, ys):
        return AND(*[
            OR(NOT(x.g), *[AND(y.g, rows_equal(x.v, y.v)) for y in prefer(x, ys)]) for x in xs
        ])

    return AND(inside(ra, rb), inside(rb, ra), *([] if len(ra) == len(rb) == 0 else [nsum_eq(ra, rb)]))


def prefer(x, ys):
    """Try the same row first: keeps the terms small."""
    same = [y for y in ys if y is x]
    return same if same and z3.is_true(z3.simplify(z3.Or(NOT(x.g), same[0].g))) else ys


def nsum_eq(ra, rb):
    a, b = nsum([r.g for r in ra]), nsum([r.g for r in rb])
    return bt(a == b)


def same_state(a, b, temp=True, skip=()):
    """The condition that two captured states are equal."""
    names = set(a) | set(b)
    out = []
    for n in sorted(names):
        if n in skip:
            continue
        ta, tb = a.get(n), b.get(n)
        if not temp and ((ta or tb).temp):
            continue
        if ta is None or tb is None:
            return FALSE
        if ta.rows == tb.rows and [c["name"] for c in ta.cols] == [c["name"] for c in tb.cols]:
            continue
        out.append(same_table(ta, tb))
    return AND(*out)
