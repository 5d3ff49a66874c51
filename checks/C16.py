"""Exactly the committed changes are recorded for replication."""
import sqlite3

from symx.runner import H
from symx.values import *

from checks.replica_common import *
from checks.wallet_common import *

PROPERTY = "C16"
TITLE = "exactly the committed changes are recorded for replication"
ASSUMPTIONS = [
    "what CBOR encodes it decodes (C27)",
    "a transaction one of whose statements failed is not committed (the wallet never does)",
    "SQL semantics: symx/sqlsym.py, validated against SQLite on the models of sampled paths",
]

INSERT = "INSERT INTO [log] VALUES (?, ?)"
UPDATE = "UPDATE [log] SET [value] = [value] + ? WHERE [key] = ?"
DELETE = "DELETE FROM [log] WHERE [value] < ?"
REPLACE = "INSERT OR REPLACE INTO [log] VALUES (?, ?)"
SELECT = "SELECT [value] FROM [log] WHERE [key] < ?"
LOCAL = "UPDATE [log] SET [value] = [value] + 0"
BIG = "UPDATE [log] SET [value] = [value] - ? /* %s */" % ("much " * 60000)
KINDS = ["insert", "update", "delete", "many", "select", "read and write", "local", "important", "nested"]
FEW = ["insert", "many", "important"]
ENDS = ["commit", "raise", "cancel", "fail"]


class Cancelled(BaseException):
    pass


class Log:
    """A table, the transactions on it, and what must have been recorded."""

    def __init__(self, ctx):
        self.ctx = ctx
        w = self.w = World(ctx)
        w.conn.execute("CREATE TABLE [log] ([key] INTEGER, [value] INTEGER)")
        w.conn.execute("INSERT INTO [log] VALUES (1, ?)", (ctx.int("initial", -100, 100),))
        w.conn.commit()
        self.enabled = False
        self.recorded = []  # (statement, arguments, important)
        self.n = 0
        self.failed = False

    def x(self):
        self.n += 1
        return self.ctx.int("x%d" % self.n, -100, 100)

    def statement(self, cursor, kind, imp):
        """One step of a transaction; what it must be recorded as."""
        if kind == "insert":
            args = (self.n, self.x())
            cursor.execute(INSERT, args)
            return [(INSERT, args, imp)]
        if kind == "update":
            args = (self.x(), self.n)
            cursor.execute(UPDATE, args)
            return [(UPDATE, args, imp)]
        if kind == "delete":
            args = (self.x(),)
            cursor.execute(DELETE, args)
            return [(DELETE, args, imp)]
        if kind == "many":
            self.n += 1
            rows = [(self.n, self.x()) for i in range(self.ctx.choice("rows%d" % self.n, 3))]
            cursor.executemany(REPLACE, rows)
            return [(REPLACE, r, imp) for r in rows]
        if kind == "select":
            cursor.execute(SELECT, (self.x(),))
            cursor.fetchall()
            return []
        if kind == "read and write":
            out = self.statement(cursor, "select", imp)
            return out + self.statement(cursor, "insert", imp)
        if kind == "local":
            cursor.unreplicated().execute(LOCAL, ())
            return []
        if kind == "important":
            with cursor.important():
                out = self.statement(cursor, "insert", True)
            return out
        if kind == "nested":
            out = []
            try:
                with cursor.important():
                    out += self.statement(cursor, "update", True)
                    raise ValueError("no matter")
            except ValueError:
                pass
            return out + self.statement(cursor, "insert", imp)
        if kind == "big":
            args = (self.x(),)
            cursor.execute(BIG, args)
            return [(BIG, args, imp)]
        raise ValueError(kind)

    def transaction(self, t, kinds, end, fault=None):
        ctx, w = self.ctx, self.w
        before = w.conn.db.capture() if not ctx.concrete else capture_real(w.conn)
        ops = len(w.grid.pending)
        done = []
        if fault is not None:
            Wallet.fail_at(w, fault)
        try:
            cursor = w.wrapped.cursor()
            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
            with w.wrapped:
                for kind in kinds:
                    done += self.statement(cursor, kind, False)
                    # who looks before the commit sees nothing
                    ctx.check(len(w.grid.pending) == ops, "no upload before the commit")
                if end == "raise":
                    raise ValueError("no")
                if end == "cancel":
                    raise Cancelled()
                if end == "fail":
                    cursor.execute("INSERT INTO [nothing] VALUES (1)", ())
            committed = True
        except (ValueError, Cancelled, sqlite3.OperationalError):
            committed = False
        if fault is not None:
            Wallet.no_faults(w)
            ctx.cover("a fault" if not committed else "no fault")
            if committed and w.left < 0:
                ctx.stop()  # it was the upload that failed, after the commit
        after = w.conn.db.capture() if not ctx.concrete else capture_real(w.conn)
        if not committed:
            ctx.cover("rolled back")
            self.failed = True
            ctx.check(mkbool(same_state(before, after)), "nothing is changed or recorded", t)
            ctx.check(len(w.grid.pending) == ops, "and no upload")
            return
        ctx.cover("committed")
        if not self.enabled:
            done = []
        self.recorded += done
        self.check(t, done, ops)

    def check(self, t, done, ops):
        ctx, w = self.ctx, self.w
        rows = w.conn.execute(
            "SELECT [sequence-number], [statement], [serialized_arguments], [important] FROM [event-stream] ORDER BY [sequence-number]"
        ).fetchall()
        want = self.recorded
        ctx.check(len(rows) == len(want), "as many events as statements", (t, len(rows), len(want)))
        for (seq, stmt, args, imp), (s, a, i) in zip(rows, want):
            ctx.check(stmt == s, "the statement", t)
            got = w.decode(args)
            ctx.check(len(got) == len(a) and And(*[x == y for x, y in zip(got, a)]), "with its values", t)
        ctx.check(And(*[a[0] < b[0] for a, b in zip(rows, rows[1:])]), "in order", t)
        if rows:
            ctx.cover("recorded")
        if any(i for _, _, i in done):
            ctx.cover("important")
            ctx.check(len(w.grid.pending) == 1, "an important change is uploaded")
            self.size = 0
        elif done:
            self.size = getattr(self, "size", 0) + sum(len(s) for s, _, _ in done)
            if self.size >= 570000:
                ctx.cover("much")
                ctx.check(len(w.grid.pending) == 1, "much is uploaded")
                self.size = 0
            elif ops == 0 and not self.failed:
                # (what was accumulated before a commit failed may count)
                ctx.check(not w.grid.pending, "nothing else is uploaded")

    def enable(self):
        # as if a snapshot was there; nothing of the grid is decided here
        self.w.grid.put("snapshot", b"a snapshot")
        self.w.start()
        self.enabled = True
        self.ctx.check(not self.w.grid.pending, "nothing is uploaded for starting")


def h_transactions(ctx, first, count, steps, second):
    ctx.opaque_text = True
    log = Log(ctx)
    at = ctx.choice("enabled before", count + 1)
    for t in range(count):
        if t == at:
            log.enable()
        kinds = []
        for s in range(1 + ctx.choice("steps%d" % t, steps)):
            kinds.append(KINDS[first] if t == s == 0 else ctx.pick("kind%d_%d" % (t, s), second))
        log.transaction(t, kinds, ctx.pick("end%d" % t, ENDS))
    ctx.check(log.w.grid.broken == [], "only the replica")


def h_fault(ctx, first, limit):
    """A statement of the transaction, of the recording of it, or the commit
    fails; the next transaction is recorded as itself."""
    ctx.opaque_text = True
    log = Log(ctx)
    log.enable()
    log.transaction(0, [KINDS[first], ctx.pick("second", KINDS)], "commit", ctx.choice("fault", limit))
    log.transaction(1, ["insert"], "commit")


def h_much(ctx, count):
    """Many unimportant changes are uploaded, too."""
    ctx.opaque_text = True
    log = Log(ctx)
    log.enable()
    for t in range(count):
        log.transaction(t, [ctx.pick("kind%d" % t, ["big", "insert"])], ctx.pick("end%d" % t, ENDS[:2]))


HARNESSES = [H(h_much, "much", {"count": 3}, "3 transactions of a statement of 300000 characters or a short one, committed or not", ["much", "rolled back"])]
COVERS = ["committed", "rolled back", "recorded"]
WHAT = "%d transactions of up to %d steps each (first: %s; others: any of %s), with any values; each committed, left by an exception, cancelled, or ended by a failing statement; replication enabled before any of them, or never"
for first, kind in enumerate(KINDS):
    HARNESSES += [
        H(h_transactions, kind, {"first": first, "count": 2, "steps": 1, "second": FEW}, WHAT % (2, 1, kind, FEW), COVERS + ["important"], tiers=("quick",)),
        H(h_transactions, kind + ", deep", {"first": first, "count": 2, "steps": 2, "second": KINDS}, WHAT % (2, 2, kind, KINDS), COVERS + ["important"], tiers=("thorough",), budget_s=850),
        H(h_transactions, kind + ", longer", {"first": first, "count": 3, "steps": 1, "second": FEW}, WHAT % (3, 1, kind, FEW), COVERS + ["important"], tiers=("thorough",), budget_s=850),
        H(h_fault, kind + ", fault", {"first": first, "limit": 9}, "a transaction of 2 steps (first: %s) in which any statement, the recording or the commit fails, then another" % kind, ["a fault", "no fault"]),
    ]
