"""Stored share sizes and lease expirations are read correctly."""
import os
import shutil
import struct
import tempfile

from allmydata.storage import immutable, lease, mutable, shares as shares_module
from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.immutable_schema import ALL_SCHEMAS as IMMUTABLE_SCHEMAS
from allmydata.storage.mutable_schema import ALL_SCHEMAS as MUTABLE_SCHEMAS
from prometheus_client import CollectorRegistry, Histogram
from symx.runner import H
from symx.values import *
from twisted.internet.task import Clock

from _zkapauthorizer import _storage_server as ss
from checks.server_common import (
    NODEID,
    SI,
    SI2,
    FakeHistogram,
    Patcher,
    RecordingSpender,
    SpyServer,
    SymFile,
    SymFS,
    keys,
)
from symx.env import quiet_eliot

quiet_eliot()
PROPERTY = "C21"
TITLE = "stored share sizes and lease expirations are read correctly"
ASSUMPTIONS = [
    "a share file of fewer than 32 bytes is not recognisable as a share (Tahoe writes a lease with every share, so they do not occur)",
    "the share containers are read by the real Tahoe-LAFS ShareFile and MutableShareFile, over a file whose length, header fields and lease records are symbolic",
    "all shares in one bucket are of the same kind, as the backend keeps them",
    "the number of leases is a bound of the harness, not symbolic",
]
U32 = 2 ** 32 - 1
EXTRA = 468


class Backend:
    def __init__(self, sharedir):
        self.sharedir = sharedir
        self.my_nodeid = NODEID

    def register_bucket_writer_close_handler(self, h):
        pass


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.expect = {}
        good, _ = keys()
        if ctx.concrete:
            self.dir = tempfile.mkdtemp(prefix="c21-")
            ctx.cleanup(lambda: shutil.rmtree(self.dir))
            self.backend = SpyServer(self.dir, NODEID, clock=Clock())
            self.backend.world = self
        else:
            p = Patcher(ctx).builtins()
            self.fs = SymFS().install(p)
            self.fs.install_into(p, immutable, mutable, lease, shares_module)
            p.replace(Histogram, FakeHistogram)
            FakeHistogram.instances = []
            self.backend = Backend("/nonexistent/shares")
            ctx.opaque_text = True
        self.sharedir = self.backend.sharedir
        self.server = ss.ZKAPAuthorizerStorageServer(
            self.backend, 1000, good, RecordingSpender(), CollectorRegistry(), Clock()
        )

    def path(self, si, name):
        return os.path.join(
            os.fsencode(self.sharedir), os.fsencode(storage_index_to_dir(si)), os.fsencode(name)
        )

    def number(self, name, nbytes, low=0):
        """(value, big-endian bytes) of an unknown number."""
        if self.ctx.concrete:
            items = [self.ctx.int("%s.b%d" % (name, i), 0, 255) for i in range(nbytes)]
            return int.from_bytes(bytes(items), "big"), items
        items = [self.ctx.int("%s.b%d" % (name, i), 0, 255) for i in range(nbytes)]
        n = 0
        for b in items:
            n = n * 256 + b
        return n, items

    def write(self, si, name, head, length, segments):
        """A file with these bytes and nothing but zeros elsewhere."""
        path = self.path(si, name)
        if not self.ctx.concrete:
            self.fs.add(path, SymFile(head, length, segments))
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.truncate(length)
            for offset, items in segments:
                f.seek(offset)
                f.write(bytes(items))
            f.seek(0)
            f.write(bytes(head)[:length])

    def lease_immutable(self, name, owner=None):
        e, items = self.number(name + ".expires", 4)
        return e, list(struct.pack(">L", 1)) + [7] * 64 + items

    def lease_mutable(self, name, there=True):
        e, items = self.number(name + ".expires", 4)
        owner = 1 if there else 0
        return e, list(struct.pack(">L", owner)) + items + [7] * 64 + [5] * 20

    def immutable(self, si, num, version, leases):
        """An immutable share: header, data, then the lease records."""
        ctx = self.ctx
        name = "share%d" % num
        size = ctx.int(name + ".size", 0, 2 ** 40)
        if not leases:
            ctx.assume(size >= 20)
        length = 12 + size + 72 * leases
        _, field = self.number(name + ".field", 4)
        head = list(struct.pack(">L", version)) + field + list(struct.pack(">L", leases))
        expires, records = [], []
        for i in range(leases):
            e, r = self.lease_immutable("%s.lease%d" % (name, i))
            expires.append(e)
            records.extend(r)
        # what the first 32 bytes hold after the header does not matter
        filler = [ctx.int("%s.fill%d" % (name, i), 0, 255) for i in range(20)] if leases == 0 else []
        segments = [(12 + size, records)]
        if not ctx.concrete:
            head = head + (filler or [0] * 20)
        elif filler:
            head = head + filler
        self.write(si, b"%d" % num, head, length, segments)
        self.expect.setdefault(si, {})[num] = (size, Max(expires) if expires else 0)

    def mutable(self, si, num, schema, slots, extra):
        """A mutable container: header, four lease slots, the data in a space
        at least as large, then further leases."""
        ctx = self.ctx
        name = "share%d" % num
        size, size_bytes = self.number(name + ".size", 4)
        room, offset_bytes = self.number(name + ".end", 4)
        ctx.assume(room >= EXTRA + size)
        head = list(schema.header(NODEID, b"w" * 32))[:84]
        head += [0] * 4 + size_bytes + [0] * 4 + offset_bytes
        expires = []
        for i in range(4):
            there = i in slots
            e, r = self.lease_mutable("%s.lease%d" % (name, i), there)
            head.extend(r)
            if there:
                expires.append(e)
        tail = list(struct.pack(">L", extra))
        for i in range(extra):
            e, r = self.lease_mutable("%s.extra%d" % (name, i))
            expires.append(e)
            tail.extend(r)
        self.write(si, b"%d" % num, head, room + len(tail), [(room, tail)])
        self.expect.setdefault(si, {})[num] = (size, Max(expires) if expires else 0)

    def verify(self, si, asked=None):
        ctx = self.ctx
        want = self.expect.get(si, {})
        if asked is None:
            (got,) = self.server.remote_stat_shares([si])
            ctx.check(sorted(got) == sorted(want), "exactly the shares stored are reported", sorted(got))
            for n, (size, expires) in want.items():
                ctx.check(got[n].size == size, "the size is the number of data bytes stored")
                ctx.check(got[n].lease_expiration == expires, "the expiration is the latest of the share's leases")
        sizes = self.server.remote_share_sizes(si, asked)
        names = [n for n in want if asked is None or n in asked]
        ctx.check(sorted(sizes) == sorted(names), "exactly the shares asked about are reported", sorted(sizes))
        for n in names:
            ctx.check(sizes[n] == want[n][0], "the size is reported under the share's own number")


def immutables(ctx, shares, leases):
    w = World(ctx)
    schemas = sorted(IMMUTABLE_SCHEMAS, key=lambda s: s.version)
    for i in range(shares):
        version = ctx.pick("version%d" % i, [s.version for s in schemas])
        n = ctx.choice("leases%d" % i, leases + 1)
        w.immutable(SI, 3 * i + 1, version, n)
        ctx.cover("leases" if n else "no lease")
    w.verify(SI)
    w.verify(SI, frozenset([1]))


def mutables(ctx, shares, extra):
    w = World(ctx)
    schemas = sorted(MUTABLE_SCHEMAS, key=lambda s: s.version)
    for i in range(shares):
        schema = ctx.pick("version%d" % i, schemas)
        slots = ctx.pick("slots%d" % i, [(), (0,), (1, 3), (0, 1, 2, 3)])
        n = ctx.choice("extra%d" % i, extra + 1)
        w.mutable(SI, 3 * i + 1, schema, slots, n)
        ctx.cover("extra leases" if n else "leases" if slots else "no lease")
    w.verify(SI)
    w.verify(SI, frozenset([1]))


def several(ctx):
    """Several indexes at once, in any order, some unknown, and files that are
    not shares."""
    w = World(ctx)
    w.immutable(SI, 0, 2, 1)
    w.immutable(SI, 12, 1, 2)
    schema = max(MUTABLE_SCHEMAS, key=lambda s: s.version)
    w.mutable(SI2, 4, schema, (0,), 0)
    for junk in (b"note.txt", b"12.tmp", b""[:0] + b"x1"):
        w.write(SI, junk, [0] * 4, 4, [])
    unknown = b"\x42" * 16
    order = ctx.pick(
        "order", [[SI, SI2], [SI2, SI], [unknown, SI, SI2], [SI, unknown, SI2, SI], [unknown], []]
    )
    got = w.server.remote_stat_shares(list(order))
    ctx.check(len(got) == len(order), "one answer for each index")
    for si, stats in zip(order, got):
        want = w.expect.get(si, {})
        ctx.check(sorted(stats) == sorted(want), "each index is answered in its place")
        for n in want:
            ctx.check(
                And(stats[n].size == want[n][0], stats[n].lease_expiration == want[n][1]),
                "each index is answered with its own shares",
            )
    ctx.cover("asked")
    asked = ctx.pick("numbers", [frozenset(), frozenset([0]), frozenset([12]), frozenset([0, 12, 13]), frozenset([5])])
    w.verify(SI, asked)


def refused(ctx):
    """Thirty-two bytes of any content, or fewer, at the front of a file."""
    w = World(ctx)
    kind = ctx.pick("like", ["any", "immutable", "mutable"])
    n = ctx.pick("length", [0, 3, 12, 31, 32, 400])
    head = [0] * 32
    if kind == "any":
        for i in range(4):
            head[i] = ctx.int("byte%d" % i, 0, 255)
    elif kind == "immutable":
        for i in range(4):
            head[i] = ctx.int("byte%d" % i, 0, 255)
        head[8:12] = [0, 0, 0, 0]
    else:
        # one byte away from the mark of a mutable container
        schema = ctx.pick("schema", sorted(MUTABLE_SCHEMAS, key=lambda s: s.version))
        head = list(schema.header(NODEID, b"w" * 32))[:32]
        at = ctx.pick("at", [0, 10, 24, 26, 27, 31])
        head[at] = ctx.int("byte", 0, 255)
        ctx.assume(head[at] != list(schema.header(NODEID, b"w" * 32))[at])
        others = [s for s in MUTABLE_SCHEMAS if s is not schema]
        for o in others:
            h = list(o.header(NODEID, b"w" * 32))[:32]
            ctx.assume(Not(And(*[a == b for a, b in zip(head, h)])))
    value = 0
    for b in head[:4]:
        value = value * 256 + b
    known = Or(*[value == s.version for s in IMMUTABLE_SCHEMAS])
    length = n if n < 32 else 500
    if not ctx.concrete:
        head = head + [0] * 468
    w.write(SI, b"0", head[: length if length < 32 else 500], length, [])
    try:
        (got,) = w.server.remote_stat_shares([SI])
    except Exception as e:
        ctx.cover("refused")
        if length >= 32:
            ctx.check(Not(known), "a well-formed share is not refused", repr(e))
        return
    ctx.cover("accepted")
    ctx.check(length >= 32, "a file too short to tell is refused")
    ctx.check(known, "a file with any other header is refused")
    ctx.check(got[0].size == length - 12, "its size is the data stored")


HARNESSES = [
    H(immutables, "immutable", {"shares": 1, "leases": 3}, bounds="one immutable share (version 1 or 2), 0-3 leases, data up to 2**40 bytes", covers=["leases", "no lease"]),
    H(immutables, "immutables", {"shares": 2, "leases": 1}, bounds="two immutable shares, 0-1 leases each", covers=["leases", "no lease"]),
    H(mutables, "mutable", {"shares": 1, "extra": 2}, bounds="one mutable container (version 1 or 2), any of 4 lease slot patterns, 0-2 further leases, data up to 2**32 bytes", covers=["leases", "no lease", "extra leases"]),
    H(several, "several", bounds="up to 4 indexes asked at once, 2 known; stray files; share number filters", covers=["asked"]),
    H(refused, "refused", bounds="files of 0-500 bytes; the first four bytes symbolic, or one byte of a container mark", covers=["refused", "accepted"]),
    H(immutables, "immutable-6", {"shares": 1, "leases": 6}, bounds="one immutable share, 0-6 leases", covers=["leases"], tiers=("thorough",)),
    H(mutables, "mutables", {"shares": 2, "extra": 1}, bounds="two mutable containers", covers=["leases"], tiers=("thorough",), budget_s=600),
]
