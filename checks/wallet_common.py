"""Real wallets for concrete replays: a VoucherStore over SQLite in memory."""
import sqlite3
from datetime import datetime, timezone

from _zkapauthorizer import model
from _zkapauthorizer.model import RandomToken, UnblindedToken, VoucherStore
from _zkapauthorizer.replicate import with_replication

NOW = datetime(2030, 1, 2, 3, 4, 5, tzinfo=timezone.utc)
PUBLIC_KEY = "cHVibGlj"


class FaultyCursor(sqlite3.Cursor):
    """A cursor whose statements fail when the connection says so."""

    def execute(self, sql, params=()):
        self.connection.count()
        return super().execute(sql, params)

    def executemany(self, sql, seq):
        if self.connection.fault is None:
            return super().executemany(sql, seq)
        for p in seq:
            self.connection.count()
            super().execute(sql, p)
        return self


class FaultyConnection(sqlite3.Connection):
    fault = None

    def count(self, what=None):
        if self.fault is not None:
            e = self.fault(what)
            if e is not None:
                raise e

    def cursor(self, *a, **k):
        return super().cursor(FaultyCursor)

    def commit(self):
        if self.in_transaction:
            self.count(("commit",))
        super().commit()

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)


def connect():
    return sqlite3.connect(":memory:", isolation_level="IMMEDIATE", factory=FaultyConnection)


def real_store(ctx, pass_value=1000, now=lambda: NOW, replicated=False):
    conn = connect()
    ctx.cleanup(conn.close)
    return VoucherStore.from_connection(pass_value, now, with_replication(conn, replicated))


def voucher_name(i):
    return b"%043d=" % i


def token_name(i):
    return b"%0128d" % i


def fill(store, names, voucher=voucher_name(0), spendable=True):
    store.add(voucher, max(1, len(names)), 0, lambda: [RandomToken(b"r" + n[1:]) for n in names])
    store.insert_unblinded_tokens_for_voucher(
        voucher, PUBLIC_KEY, [UnblindedToken(n) for n in names], True, spendable
    )


def rows(store, sql, args=()):
    """Read the database behind the wallet's back."""
    conn = raw_connection(store)
    return list(conn.execute(sql, args))


def raw_connection(store):
    conn = store._connection
    for _ in range(3):
        if isinstance(conn, sqlite3.Connection):
            return conn
        for v in values_of(conn):
            if isinstance(v, sqlite3.Connection):
                return v
    raise RuntimeError("no SQLite connection found")


def values_of(o):
    import attr

    if attr.has(type(o)):
        return [getattr(o, a.name, None) for a in attr.fields(type(o))]
    return list(vars(o).values())


# -- wallets over an arbitrary database state ---------------------------------

from symx import sqlsym  # noqa: E402
from symx.env import Patcher, quiet_eliot  # noqa: E402
from symx.sqlsym import AND, NOT, OR, Row, Table, bt, has_row, same_state, same_table  # noqa: E402
from symx.values import Implies, is_sym, lift, mkbool  # noqa: E402
from symx.z3load import z3  # noqa: E402

quiet_eliot()


class Wallet:
    """A VoucherStore over a database in any state the harness describes:
    the symbolic engine, or (concrete replays) a real SQLite."""

    def __init__(self, ctx, pass_value=1000, now=lambda: NOW, replicated=False, store=True, conn=None):
        self.ctx = ctx
        self.commits = []
        self.patcher = Patcher(ctx)
        if ctx.concrete:
            self.conn = conn or connect()
            ctx.cleanup(self.conn.close)
        else:
            self.patcher.builtins()
            self.conn = conn or sqlsym.Connection()
        if store:
            self.store = VoucherStore.from_connection(
                pass_value, now, with_replication(self.conn, replicated)
            )
        if not ctx.concrete:
            self.conn.db.on_commit.append(lambda db: self.commits.append(db.capture()))

    def put(self, table, guard=True, **cells):
        """A row that exists under a condition."""
        if not self.ctx.concrete:
            self.conn.db.put(table, guard, **{k: sqlsym.adapt(v) for k, v in cells.items()})
        elif guard:
            names = [r[1] for r in self.conn.execute("PRAGMA table_info([%s])" % table)]
            cols = ", ".join("[%s]" % (k if k in names else k.replace("_", "-")) for k in cells)
            self.conn.execute(
                "INSERT INTO [%s] (%s) VALUES (%s)" % (table, cols, ", ".join("?" for _ in cells)),
                [sqlsym.adapt(v) for v in cells.values()],
            )

    def ready(self):
        """The described state is the committed one."""
        if self.ctx.concrete:
            self.conn.commit()
        self.commits.clear()
        return self.state()

    def state(self):
        if not self.ctx.concrete:
            return self.conn.db.capture()
        return capture_real(self.conn)

    def fail_at(self, n, exc=None):
        """The n-th statement from now on fails (the database is locked, the
        disk is full, ...)."""
        exc = exc or sqlite3.OperationalError("database or disk is full")
        self.left = n

        def fault(ast):
            self.left -= 1
            return exc if self.left == -1 else None

        if self.ctx.concrete:
            self.conn.fault = fault
        else:
            self.conn.db.fault = fault

    def no_faults(self):
        if self.ctx.concrete:
            self.conn.fault = None
        else:
            self.conn.db.fault = None

    def check_atomic(self, before, after, what=""):
        """Every state that reached the disk is the old or the new one."""
        for s in self.commits:
            self.ctx.check(
                mkbool(OR(same_state(s, before, temp=False), same_state(s, after, temp=False))),
                "a crash leaves the state of before or after" + what,
            )


def capture_real(conn):
    """The tables of a real database, in the engine's representation."""
    out = {}
    for master, temp in (("sqlite_master", False), ("sqlite_temp_master", True)):
        for (name,) in list(conn.execute("SELECT name FROM %s WHERE type = 'table'" % master)):
            cols = [
                {"name": r[1], "type": r[2].upper()} for r in conn.execute("PRAGMA table_info([%s])" % name)
            ]
            t = Table(name, cols, [], [], None, False, temp)
            for i, r in enumerate(conn.execute("SELECT * FROM [%s]" % name)):
                t.rows.append(Row(bt(True), i + 1, tuple(r)))
            out[name.lower()] = t
    return out


def B(term):
    """A z3 condition as something ctx.check and the code can use."""
    return mkbool(term)


def no_change(before, after, *skip):
    return mkbool(same_state(before, after, skip=skip))


def maybe_null(ctx, name, value):
    """``value`` or NULL."""
    n = ctx.bool(name + ".null")
    if ctx.concrete:
        return None if n else value
    return sqlsym.opt(bt(n), value)
