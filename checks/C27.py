"""Names and contents of a replica, from and to SQL."""
import io
import sqlite3

from symx import symfmt
from symx.env import Patcher, quiet_eliot
from symx.runner import H
from symx.symbytes import SymBytes
from symx.symtext import SymStr
from symx.values import *

from datetime import datetime, timezone

from _zkapauthorizer import recover as REC
from _zkapauthorizer import replicate as R
from _zkapauthorizer import sql as SQL
from checks.replica_common import Codec

quiet_eliot()

PROPERTY = "C27"
TITLE = "names and contents in a replica come back as they were and never become SQL"
ASSUMPTIONS = [
    "the lexical rules of SQLite are those of the lexer in checks/C27.py; each replayed path is executed by SQLite",
    "CBOR decodes what it encoded, as lists where there were tuples; replayed paths use cbor2",
    "names have no NUL character (SQLite ends a statement there) and no surrogates (they cannot be encoded)",
    "how SQLite writes a value as SQL (quote()) is SQLite's; the statements are opaque here",
]

_loaded = None


def modules(ctx):
    """sql and recover: as they are in a replay, else compiled for symbolic
    text."""
    global _loaded
    if ctx.concrete:
        return vars(SQL), vars(REC)
    if _loaded is None:
        _loaded = symfmt.load(["_zkapauthorizer.sql", "_zkapauthorizer.recover"])
    return _loaded["_zkapauthorizer.sql"], _loaded["_zkapauthorizer.recover"]


def text(ctx, name, n):
    """Any text of n characters."""
    items = []
    for i in range(n):
        c = ctx.int("%s%d" % (name, i), 1, 0x10FFFF)
        ctx.assume(Or(c < 0xD800, c > 0xDFFF))
        items.append(c)
    return "".join(map(chr, items)) if ctx.concrete else SymStr(items).simplify()


# -- the lexical structure of a statement ---------------------------------------------


class Bad(Exception):
    pass


QUOTES = {"'": "'", '"': '"', "`": "`", "[": "]"}


def lex(sql):
    """The tokens of a statement: ("word", text), ("name", text), or one
    character of punctuation."""
    chars = SymStr.of(sql).items
    n = 0

    def is_(i, c):
        return bool(chars[i] == ord(c))

    def wordy(i):
        c = chars[i]
        return bool(
            Or(And(c >= 48, c <= 57), And(c >= 65, c <= 90), And(c >= 97, c <= 122), c == 95, c == 36, c >= 128)
        )

    out = []
    while n < len(chars):
        if is_(n, " ") or is_(n, "\n") or is_(n, "\t") or is_(n, "\r") or is_(n, "\f"):
            n += 1
            continue
        opening = next((q for q in QUOTES if is_(n, q)), None)
        if opening is not None:
            end = QUOTES[opening]
            n += 1
            got = []
            while True:
                if n >= len(chars):
                    raise Bad("a quoted name does not end")
                if is_(n, end):
                    if opening != "[" and n + 1 < len(chars) and is_(n + 1, end):
                        got.append(chars[n])
                        n += 2
                        continue
                    n += 1
                    break
                got.append(chars[n])
                n += 1
            out.append(("name", SymStr(got).simplify()))
        elif wordy(n):
            got = []
            while n < len(chars) and wordy(n):
                got.append(chars[n])
                n += 1
            out.append(("word", SymStr(got).simplify()))
        else:
            out.append((SymStr([chars[n]]).simplify(), None))
            n += 1
    return out


def same_tokens(got, expected):
    """``expected``: words and punctuation as text, names as ("name", text)"""
    if len(got) == len(expected) + 1:
        last = got[-1]
        if last[1] is None and bool(SymStr.of(last[0]).eq(";")):
            got = got[:-1]
    if len(got) != len(expected):
        return False
    ok = True
    for g, e in zip(got, expected):
        if isinstance(e, tuple):
            # An unquoted word can be a name too, if it is not a keyword.
            ok = And(ok, g[0] in ("name", "word"), SymStr.of(g[1]).eq(e[1]) if g[1] is not None else False)
        elif e.isalpha():
            ok = And(ok, g[0] == "word" and type(g[1]) is str and g[1].upper() == e)
        else:
            ok = And(ok, g[1] is None and SymStr.of(g[0]).eq(e))
        if ok is False:
            return False
    return ok


def comma(xs):
    out = []
    for n, x in enumerate(xs):
        out += [","] if n else []
        out += x
    return out


def folded(name):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in name)


def statements(ctx, what, table, columns):
    """A statement about a table has the names it was given, as names."""
    sql, _ = modules(ctx)
    kinds = list(sql["StorageAffinity"])
    name = text(ctx, "table", table)
    cols = [text(ctx, "column%d_" % n, k) for n, k in enumerate(columns)]
    first = ctx.choice("affinity", len(kinds)) if what == "create" else 0
    affinities = [kinds[(first + n) % len(kinds)] for n in range(len(cols))]
    T = sql["Table"]([(c, sql["Column"](a)) for c, a in zip(cols, affinities)])
    t = ("name", name)
    values = tuple(range(len(cols)))
    marks = comma([["?"] for c in cols])
    names = comma([[("name", c)] for c in cols])
    if what == "create":
        got = sql["create_table"](name, T)
        expected = ["CREATE", "TABLE", t, "("] + comma([[("name", c), a.name] for c, a in zip(cols, affinities)]) + [")"]
    else:
        obj = {
            "insert": lambda: sql["Insert"](name, T, values),
            "update": lambda: sql["Update"](name, T, values),
            "select": lambda: sql["Select"](name),
            "delete": lambda: sql["Delete"](name),
        }[what]()
        got = obj.statement()
        ctx.check(tuple(obj.arguments()) == (values if what in ("insert", "update") else ()), "the arguments are the fields")
        expected = {
            "insert": ["INSERT", "INTO", t, "("] + names + [")", "VALUES", "("] + marks + [")"],
            "update": ["UPDATE", t, "SET"] + comma([[("name", c), "=", "?"] for c in cols]),
            "select": ["SELECT", "*", "FROM", t],
            "delete": ["DELETE", "FROM", t],
        }[what]
    ctx.observe("statement", got)
    try:
        same = same_tokens(lex(got), expected)
    except Bad:
        same = False
    ctx.check(same, "the statement has exactly the names it was given, as names")
    ctx.cover(what)
    if ctx.concrete and len({folded(c) for c in cols}) == len(cols) and cols:
        real_statement(ctx, what, name, cols, affinities, got)


def quoted(name):
    return '"%s"' % name.replace('"', '""')


def real_statement(ctx, what, name, cols, affinities, got):
    """The statement, executed by SQLite next to another table."""
    label = "SQLite finds in the statement what it was built for"
    db = sqlite3.connect(":memory:")
    try:
        db.execute("CREATE TABLE bystander (x)")
        db.execute("INSERT INTO bystander VALUES (1)")
        if what != "create":
            db.execute("CREATE TABLE %s (%s)" % (quoted(name), ", ".join(quoted(c) for c in cols)))
            if what != "insert":
                db.execute("INSERT INTO %s VALUES (%s)" % (quoted(name), ", ".join("7" for c in cols)))
        args = tuple(range(len(cols))) if what in ("insert", "update") else ()
        try:
            result = db.execute(got, args).fetchall()
        except sqlite3.Error as e:
            ctx.check(False, label, repr((got, e)))
        tables = {n for (n,) in db.execute("SELECT name FROM sqlite_master")}
        ctx.check(tables == {"bystander", name}, label, repr((got, tables)))
        info = [r[1] for r in db.execute("PRAGMA table_info(%s)" % quoted(name))]
        ctx.check(info == cols, label, repr((got, info)))
        rows = db.execute("SELECT * FROM " + quoted(name)).fetchall()
        row = tuple(range(len(cols)))
        sevens = (7,) * len(cols)
        ctx.check(
            rows == {"create": [], "insert": [row], "update": [row], "select": [sevens], "delete": []}[what]
            and result == ([sevens] if what == "select" else []),
            label,
            repr((got, rows, result)),
        )
        ctx.check(db.execute("SELECT * FROM bystander").fetchall() == [(1,)], label)
    finally:
        db.close()


def names(ctx, n):
    """An escaped name is one name, wherever it stands."""
    sql, _ = modules(ctx)
    name = text(ctx, "name", n)
    got = sql["escape_identifier"](name)
    ctx.observe("escaped", got)
    for before, after in (("", ""), ("( ", " )"), ("'a'.", "='b'")):
        tokens = SymStr(SymStr.of(before).items + SymStr.of(got).items + SymStr.of(after).items)
        try:
            same = same_tokens(
                lex(tokens),
                {"": [("name", name)], "( ": ["(", ("name", name), ")"]}.get(
                    before, [("name", "a"), ".", ("name", name), "=", ("name", "b")]
                ),
            )
        except Bad:
            same = False
        ctx.check(same, "an escaped name is that name and nothing else")
    ctx.cover("name")
    if ctx.concrete and n and not folded(name).startswith("sqlite_"):
        real_statement(ctx, "delete", name, ["c"], [], "DELETE FROM " + got)


# -- loading a snapshot -----------------------------------------------------------------

KINDS = ["table", "insert", "index", "begin", "commit", "sequence"]


class Cursor:
    def __init__(self, tables):
        self.tables = tables
        self.executed = []
        self.rows = []

    def execute(self, sql, args=()):
        if type(sql) is str and "sqlite_master" in sql and sql.upper().startswith("SELECT"):
            self.rows = [(t,) for t in self.tables]
        else:
            self.executed.append((sql, args))
        return self

    def executemany(self, sql, rows):
        for r in rows:
            self.execute(sql, r)
        return self

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def fetchmany(self, n=1):
        rows, self.rows = self.rows[:n], self.rows[n:]
        return rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

    def close(self):
        pass


def tail(ctx, name, n):
    return text(ctx, name, n)


def join(*parts):
    items = [i for p in parts for i in SymStr.of(p).items]
    return SymStr(items).simplify()


def loading(ctx, tables, statements, size):
    _, rec = modules(ctx)
    here = []
    for n, k in enumerate(tables):
        here.append("sqlite_sequence" if k is None else text(ctx, "table%d_" % n, k))
    given = []
    for n in range(statements):
        kind = ctx.pick("kind%d" % n, KINDS)
        t = lambda: tail(ctx, "text%d_" % n, size)
        given.append(
            {
                "table": lambda: join('CREATE TABLE "', t(), '" (x);'),
                "insert": lambda: join("INSERT INTO \"t\" VALUES('", t(), "');"),
                "index": lambda: join("CREATE INDEX i ON t (", t(), ");"),
                "begin": lambda: "BEGIN TRANSACTION;",
                "commit": lambda: "COMMIT;",
                "sequence": lambda: 'DELETE FROM "sqlite_sequence";',
            }[kind]()
            if kind != "any"
            else t()
        )
        ctx.cover(kind)
    cursor = Cursor(here)
    rec["recover_snapshot"](iter(given), cursor)
    ctx.observe("executed", [s for s, a in cursor.executed])

    executed = [s for s, a in cursor.executed if not (type(s) is str and s.startswith("PRAGMA"))]
    dropped = []
    while executed and bool(SymStr.of(executed[0])[: len("DROP")] == "DROP"):
        dropped.append(executed.pop(0))
    expect_gone = [t for t in here if not (type(t) is str and t == "sqlite_sequence")]
    ctx.check(len(dropped) == len(expect_gone), "every table there was is removed, once")
    for d, t in zip(dropped, expect_gone):
        try:
            tokens = lex(d)
            same = Or(
                same_tokens(tokens, ["DROP", "TABLE", ("name", t)]),
                same_tokens(tokens, ["DROP", "TABLE", "IF", "EXISTS", ("name", t)]),
            )
        except Bad:
            same = False
        ctx.check(same, "the removal of a table names exactly that table")
    if expect_gone:
        ctx.cover("removed")

    is_table = lambda s: SymStr.of(s)[: len("CREATE TABLE")] == "CREATE TABLE"
    wanted = [s for s in given if bool(is_table(s))] + [
        s for s in given if not bool(is_table(s)) and s not in ("BEGIN TRANSACTION;", "COMMIT;")
    ]
    ctx.check(len(executed) == len(wanted), "every statement is executed exactly once, but not BEGIN and COMMIT")
    for a, b in zip(executed, wanted):
        ctx.check(
            SymStr.of(a).eq(b),
            "table definitions are executed first, and the statements unchanged and in order",
        )
    ctx.check(
        all(len(a) == 0 for s, a in cursor.executed), "the statements of a snapshot have no arguments"
    )
    if ctx.concrete and len({folded(t) for t in expect_gone}) == len(expect_gone) and all(expect_gone):
        db = sqlite3.connect(":memory:")
        for t in expect_gone:
            db.execute("CREATE TABLE %s (x)" % quoted(t))
        db.execute("CREATE TABLE bystander (x)")
        for d in dropped:
            try:
                db.execute(d)
            except sqlite3.Error as e:
                ctx.check(False, "the removal of a table names exactly that table", repr((d, e)))
        left = {n for (n,) in db.execute("SELECT name FROM sqlite_master")}
        db.close()
        ctx.check(left == {"bystander"}, "the removal of a table names exactly that table", repr(left))


# -- snapshots and event streams as bytes ---------------------------------------------------


def codec(ctx):
    return None if ctx.concrete else Codec().install(Patcher(ctx))


def provider(data):
    return lambda: io.BytesIO(data)


def snapshots(ctx, count, size):
    codec(ctx)
    given = [text(ctx, "s%d_" % n, ctx.choice("size%d" % n, size + 1)) for n in range(count)]
    data = R.statements_to_snapshot(iter(given))
    got = list(REC.statements_from_snapshot(provider(data)))
    ctx.observe("statements", got)
    ctx.check(len(got) == count, "a snapshot read back has as many statements")
    for a, b in zip(given, got):
        ctx.check(SymStr.of(a).eq(b), "a snapshot read back has the same statements in the same order")
    ctx.cover("snapshot")


def encode(ctx, value):
    if ctx.concrete:
        import cbor2

        return cbor2.dumps(value)
    return R.cbor2.dumps(value)


def refused(ctx):
    """A snapshot or stream of another version or structure is refused."""
    ctx.opaque_text = True
    codec(ctx)
    what = ctx.pick("what", ["snapshot", "stream"])
    version = ctx.int("version", -3, 70000) if ctx.flag("numbered") else ctx.pick("odd", [None, "1", 1.5])
    key = "statements" if what == "snapshot" else "events"
    content = {key: []}
    if not ctx.flag("unversioned"):
        content["version"] = version
    odd = "none"
    if what == "snapshot":
        good = [text(ctx, "s%d_" % n, 3) for n in range(2)]
        odd = ctx.pick("content", ["none", "integer", "bytes", "list", "text", "mapping"])
        content[key] = {
            "none": lambda: good,
            "integer": lambda: [good[0], ctx.int("i", -5, 5)],
            "bytes": lambda: [b"COMMIT;", good[0]],
            "list": lambda: [good, good[1]],
            "text": lambda: "COMMIT;",
            "mapping": lambda: {"SELECT 1": 1},
        }[odd]()
    data = encode(ctx, content)
    try:
        if what == "snapshot":
            got = list(REC.statements_from_snapshot(provider(data)))
        else:
            got = R.EventStream.from_bytes(io.BytesIO(data))
    except ValueError:
        got = None
    current = And("version" in content, version == 1 if type(version) is not str and version is not None else False)
    ctx.check(
        Not(current) if got is None and odd == "none" else (odd != "none" or current),
        "it is refused when the version is not the known one",
    )
    if got is not None:
        ctx.check(odd == "none", "a snapshot that is not a list of statements is refused")
        ctx.cover("accepted")
    else:
        ctx.cover("refused")


def streams(ctx, count, arguments):
    """Changes read back are the changes."""
    codec(ctx)
    given = []
    for n in range(count):
        args = []
        for m in range(ctx.choice("arguments%d" % n, arguments + 1)):
            k = "%d_%d" % (n, m)
            kind = ctx.pick("kind" + k, ["integer", "text", "bytes", "null", "real", "time"])
            args.append(
                {
                    "integer": lambda: ctx.int("i" + k, -(2 ** 63), 2 ** 63 - 1),
                    "text": lambda: text(ctx, "t" + k + "_", 2),
                    "bytes": lambda: (bytes if ctx.concrete else SymBytes)(
                        [ctx.int("b%s_%d" % (k, i), 0, 255) for i in range(2)]
                    ),
                    "null": lambda: None,
                    "real": lambda: ctx.pick("r" + k, [0.0, -1.5, 1e300, 0.1]),
                    "time": lambda: datetime(2026, 11, 20, 1, 2, 3, 456789, timezone.utc),
                }[kind]()
            )
            ctx.cover(kind)
        given.append(
            R.Change(
                ctx.int("sequence%d" % n, 0, 2 ** 63 - 1),
                text(ctx, "statement%d_" % n, 2),
                args if ctx.flag("list%d" % n) else tuple(args),
                ctx.bool("important%d" % n),
            )
        )
    stream = R.EventStream(changes=given)
    data = stream.to_bytes().read()
    got = R.EventStream.from_bytes(io.BytesIO(data))
    ctx.check(len(got.changes) == count, "a stream read back has as many changes")
    ctx.observe("sequences", [c.sequence for c in got.changes])
    for a, b in zip(given, got.changes):
        label = "a change read back is the change, in its place"
        ctx.check(a.sequence == b.sequence, label)
        ctx.check(SymStr.of(a.statement).eq(b.statement), label)
        ctx.check(Or(And(a.important, b.important), And(Not(a.important), Not(b.important))), label)
        ctx.check(len(a.arguments) == len(b.arguments), label)
        for x, y in zip(a.arguments, b.arguments):
            if isinstance(x, str):
                ctx.check(isinstance(y, str) and SymStr.of(x).eq(y), label)
            elif x is None:
                ctx.check(y is None, label)
            else:
                ctx.check(type(x) is type(y) and x == y, label)
    highest = got.highest_sequence()
    if count:
        ctx.check(
            And(Or(*[highest == c.sequence for c in given]), *[highest >= c.sequence for c in given]),
            "the highest number of a stream is that of one of its changes and none is higher",
        )
    else:
        ctx.check(highest is None, "an empty stream has no highest number")
    ctx.cover("stream")


class Odd:
    pass


def alien(ctx, count):
    """Something that is not an SQL value cannot be recorded."""
    odd = ctx.pick("odd", ["none", "list", "mapping", "object", "set"])
    where = ctx.choice("where", count)
    args = [ctx.int("i%d" % n, -5, 5) for n in range(count)]
    if odd != "none":
        args[where] = {"list": [1], "mapping": {}, "object": Odd(), "set": {1}}[odd]
    how = ctx.pick("how", ["built", "read"])
    try:
        if how == "built":
            R.Change(1, "x", tuple(args), False)
        else:
            codec(ctx)
            if odd in ("object", "set"):
                ctx.stop("CBOR has no such value")
            R.EventStream.from_bytes(
                io.BytesIO(encode(ctx, {"version": 1, "events": [[1, "x", args, False]]}))
            )
    except ValueError:
        ctx.check(odd != "none", "SQL values are accepted")
        ctx.cover("refused")
    else:
        ctx.check(odd == "none", "what is not an SQL value is refused")
        ctx.cover("accepted")


HARNESSES = []


def add(fn, name, params, bounds, covers, tiers=("quick", "thorough")):
    HARNESSES.append(
        H(fn, name, params, bounds, covers, tiers=tiers, budget_s=200 if "quick" in tiers else 800)
    )


DEEP = ("thorough",)
for n in range(7):
    add(names, "names-%d" % n, {"n": n}, "any text of %d characters as a name" % n, ["name"], DEEP if n > 4 else ("quick", "thorough"))
for what in ("create", "insert", "update", "select", "delete"):
    simple = what in ("select", "delete")
    for table, columns, tiers in [
        (3, (1, 2), ("quick", "thorough")),
        (1, (3,), ("quick", "thorough")),
        (2, () if simple else (1, 1, 1), ("quick", "thorough")),
        (4, (2, 2), DEEP),
        (2, (2, 2, 1), DEEP),
    ]:
        add(
            statements,
            "%s-%d-%s" % (what, table, "-".join(map(str, columns)) or "none"),
            {"what": what, "table": table, "columns": columns},
            "a table name of any %d characters, columns of any %s characters, of every affinity" % (table, columns),
            [what],
            tiers,
        )
for tables, k, size, tiers in [
    ((2, None), 2, 13, ("quick", "thorough")),
    ((2, 1), 0, 0, ("quick", "thorough")),
    ((None, 3), 1, 20, ("quick", "thorough")),
    ((), 3, 13, ("quick", "thorough")),
    ((4,), 1, 13, DEEP),
    ((None,), 4, 14, DEEP),
]:
    add(
        loading,
        "loading-%s-%d-%d" % ("-".join(map(str, tables)), k, size),
        {"tables": tables, "statements": k, "size": size},
        "tables there with names of any %s characters (None: sqlite_sequence); every sequence of %d statements of every kind, each with any text of %d characters in it"
        % (tables, k, size),
        (["table", "insert", "index", "begin", "commit", "sequence"] if k else []) + (["removed"] if any(tables) else []),
        tiers,
    )
for count, size, tiers in [(0, 0, ("quick", "thorough")), (3, 2, ("quick", "thorough")), (6, 2, DEEP), (3, 5, DEEP)]:
    add(
        snapshots,
        "snapshot-%d-%d" % (count, size),
        {"count": count, "size": size},
        "%d statements of any text up to %d characters" % (count, size),
        ["snapshot"],
        tiers,
    )
add(refused, "refused", {}, "any version from -3 to 70000 and others, 6 kinds of contents", ["accepted", "refused"])
for count, args, tiers in [(0, 0, ("quick", "thorough")), (1, 3, ("quick", "thorough")), (2, 1, ("quick", "thorough")), (2, 2, DEEP), (3, 1, DEEP)]:
    add(
        streams,
        "stream-%d-%d" % (count, args),
        {"count": count, "arguments": args},
        "%d changes with up to %d arguments of every kind, any 64-bit numbers" % (count, args),
        ["stream"] + (["integer", "text", "bytes", "null", "real", "time"] if args else []),
        tiers,
    )
add(alien, "alien", {"count": 3}, "3 arguments, of which any is not an SQL value", ["accepted", "refused"])
