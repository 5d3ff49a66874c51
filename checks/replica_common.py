"""A wallet being replicated to a stand-in grid, step by step."""
import io
import sqlite3

from symx import sqlsym
from symx.env import Patcher, quiet_eliot
from symx.sqlsym import bt
from symx.values import *

import cbor2
from tahoe_capabilities import (
    ReadCapability,
    immutable_readonly_from_string,
    writeable_directory_from_string,
)
from twisted.internet.defer import Deferred, succeed, fail

from _zkapauthorizer import model as M
from _zkapauthorizer import replicate as R
from _zkapauthorizer.tahoe import DirectoryNode, FileNode
from checks.wallet_common import NOW, connect, voucher_name

quiet_eliot()

DIRCAP = writeable_directory_from_string("URI:DIR2:%s:%s" % ("a" * 26, "b" * 52))


class Codec:
    """CBOR for values that may be symbolic: what was encoded is what is
    decoded (tuples become lists)."""

    def __init__(self):
        self.known = {}

    def dumps(self, obj, **kw):
        key = b"cbor-%d" % len(self.known)
        self.known[key] = freeze(obj)
        return key

    def loads(self, data, **kw):
        if data in self.known:
            return self.known[data]
        return cbor2.loads(data)

    def dump(self, obj, fp, **kw):
        fp.write(self.dumps(obj))

    def load(self, fp, **kw):
        return self.loads(fp.read())

    def install(self, patcher):
        patcher.proxy_module(
            cbor2, dumps=self.dumps, loads=self.loads, load=self.load, dump=self.dump
        )
        for name in ("dumps", "loads", "load", "dump"):
            patcher.replace(getattr(cbor2, name), getattr(self, name))
        return self


def freeze(x):
    if type(x) in (list, tuple):
        return [freeze(y) for y in x]
    if type(x) is dict:
        return {freeze(k): freeze(v) for k, v in x.items()}
    return x


def child_cap(n):
    s = ""
    while len(s) < 26:
        s += "abcdefghijklmnopqrstuvwxyz234567"[n % 32]
        n //= 32
    return immutable_readonly_from_string("URI:CHK:%s:%s:1:1:10" % (s, "a" * 52))


class Lost(Exception):
    """The grid does not answer, or answers with a failure."""


class Op:
    def __init__(self, kind, name, apply):
        self.kind, self.name, self.apply = kind, name, apply
        self.d = Deferred()


class Path:
    """A file in the private directory."""

    def __init__(self, grid, name):
        self.grid, self.name = grid, name
        self.path = "/node/private/" + name

    def exists(self):
        return self.name in self.grid.private

    def setContent(self, data, ext=None):
        self.grid.private[self.name] = data

    def getContent(self):
        return self.grid.private[self.name]

    def open(self, mode="r"):
        return io.BytesIO(self.grid.private[self.name])

    def asTextMode(self):
        return self

    def __fspath__(self):
        raise NotImplementedError


class Grid:
    """Stands for the Tahoe-LAFS client: one directory of immutable files.

    Uploads and unlinks wait for the history to decide them; the data is
    taken when an upload is decided.
    """

    def __init__(self):
        self.files = {}  # capability -> bytes
        self.entries = {}  # name -> capability
        self.pending = []
        self.after_link = None
        self.caps = 0
        self.broken = []  # what must never happen
        self.private = {}  # the private directory of the node
        self.downloads = 0
        self.fail_download = None
        self.fail_list = False

    def put(self, name, data):
        """A file that is in the grid."""
        self.caps += 1
        cap = child_cap(self.caps)
        self.files[cap] = data
        self.entries[name] = cap

    # the interface of the client
    def upload(self, get_data_provider):
        def apply():
            with get_data_provider() as f:
                data = f.read()
            self.caps += 1
            cap = child_cap(self.caps)
            self.files[cap] = data
            return cap

        return self.wait("upload", None, apply)

    def link(self, dir_cap, entry_name, entry_cap):
        if dir_cap != DIRCAP:
            self.broken.append("linked into another directory")
        self.entries[entry_name] = entry_cap
        after, self.after_link = self.after_link, None
        return after() if after else succeed(None)

    def unlink(self, dir_cap, entry_name):
        def apply():
            if dir_cap != DIRCAP:
                self.broken.append("unlinked from another directory")
            self.entries.pop(entry_name, None)

        return self.wait("unlink", entry_name, apply)

    def get_private_path(self, name):
        return Path(self, name)

    def download(self, outpath, cap):
        self.downloads += 1
        if self.downloads == self.fail_download:
            return fail(Lost("no download"))
        outpath.setContent(self.files[cap])
        return succeed(None)

    def list_directory(self, dir_cap):
        if self.fail_list:
            return fail(Lost("no listing"))
        return succeed({
            n: FileNode(size=len(self.files[c]), ro_uri=c)
            for n, c in self.entries.items()
        })

    # the history
    def wait(self, kind, name, apply):
        op = Op(kind, name, apply)
        self.pending.append(op)
        return op.d

    def decide(self, how):
        """One of: ok, fail, lost (done, but reported failed), crash (not
        done), done (done, then crash)."""
        op = self.pending.pop(0)
        if how == "ok":
            op.d.callback(op.apply())
        elif how == "fail":
            op.d.errback(Lost())
        elif how == "crash":
            pass
        elif op.kind == "upload":
            self.after_link = (lambda: fail(Lost())) if how == "lost" else Deferred
            op.d.callback(op.apply())
        else:
            op.apply()
            if how == "lost":
                op.d.errback(Lost())

    def replica(self):
        return R.get_tahoe_lafs_direntry_replica(self, DIRCAP)


class Policy:
    def __init__(self, world):
        self.world = world
        self.asked = len(world.keep) * 100

    def should_snapshot(self, snapshot_size, replica_sizes):
        self.asked += 1
        return self.world.ctx.flag("take a snapshot %d" % self.asked)


CREATE = "CREATE TABLE [history] ([id] INTEGER PRIMARY KEY, [value] INTEGER)"


class World:
    """A wallet's database with one more table, whose one row is a digest of
    the changes made to it: repeating, dropping or reordering any of them
    gives another value."""

    SQL = "UPDATE [history] SET [value] = [value] * 3 + ?"

    def __init__(self, ctx):
        self.ctx = ctx
        self.keep = []
        self.xs = []
        self.changes = 0
        self.digest = 1
        self.grid = Grid()
        self.patcher = Patcher(ctx)
        if ctx.concrete:
            self.conn = connect()
            ctx.cleanup(self.conn.close)
        else:
            self.patcher.builtins()
            self.codec = self.make_codec().install(self.patcher)
            self.conn = sqlsym.Connection()
        self.open(False)
        self.conn.execute(CREATE)
        self.conn.execute("INSERT INTO [history] VALUES (1, 1)")
        self.conn.commit()
        self.service = None

    def make_codec(self):
        return Codec()

    def open(self, enabled=True):
        self.wrapped = R.with_replication(self.conn, enabled)
        self.store = M.VoucherStore.from_connection(1000, lambda: NOW, self.wrapped)

    def start(self):
        self.service = R.replication_service(self.wrapped, self.grid.replica(), Policy(self))
        self.keep.append(self.service)
        self.service.startService()

    def crash(self):
        """Another process opens the database."""
        self.keep.append(self.grid.pending)
        self.grid.pending = []
        self.grid.after_link = None
        self.conn.rollback()
        for name in ("in-use", "to-discard", "to-reset"):
            self.conn.execute("DROP TABLE IF EXISTS [%s]" % name)
        self.conn.commit()
        self.open()
        self.start()

    def change(self, important):
        x = self.ctx.int("x%d" % self.changes, -1000, 1000)
        self.changes += 1
        with self.wrapped:
            cursor = self.wrapped.cursor()
            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
            if important:
                with cursor.important():
                    cursor.execute(self.SQL, (x,))
            else:
                cursor.execute(self.SQL, (x,))
        self.xs.append(x)
        self.digest = self.digest * 3 + x

    # looking from outside
    def decode(self, data):
        return cbor2.loads(data) if self.ctx.concrete else self.codec.loads(data)

    def local_events(self):
        rows = self.conn.execute(
            "SELECT [sequence-number], [statement], [serialized_arguments] FROM [event-stream] ORDER BY [sequence-number]"
        ).fetchall()
        return [(s, q, tuple(self.decode(a))) for s, q, a in rows]

    def stream_events(self, name):
        data = self.decode(self.grid.files[self.grid.entries[name]])
        return [(e[0], e[1], tuple(e[2])) for e in data["events"]]

    def fresh(self):
        if self.ctx.concrete:
            c = sqlite3.connect(":memory:", isolation_level=None)
            self.ctx.cleanup(c.close)
            return c
        return sqlsym.Connection()

    def rebuilt(self):
        """What the latest snapshot and all the events known anywhere give,
        or None if there is no snapshot."""
        if "snapshot" not in self.grid.entries:
            return None
        snap = self.decode(self.grid.files[self.grid.entries["snapshot"]])
        conn = self.fresh()
        create = [s for s in snap["statements"] if s.startswith("CREATE")]
        other = [s for s in snap["statements"] if not s.startswith("CREATE")]
        for s in create:
            conn.execute(s)
        for s in other:
            if s not in ("BEGIN TRANSACTION;", "COMMIT;"):
                conn.execute(s)
        seqs = conn.execute("SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'").fetchall()
        covered = seqs[0][0] if seqs else 0
        events = {}
        for name in self.grid.entries:
            if name.startswith("event-stream-"):
                for s, q, a in self.stream_events(name):
                    events[s] = (q, a)
        for s, q, a in self.local_events():
            events[s] = (q, a)
        for s in sorted(events):
            if s > covered:
                conn.execute(*events[s])
        if self.ctx.concrete is False:
            conn.db.commit()
        return conn

    def value(self, conn):
        rows = conn.execute("SELECT [value] FROM [history]").fetchall()
        return rows[0][0] if len(rows) == 1 else None
