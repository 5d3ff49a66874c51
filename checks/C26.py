"""Snapshots are taken exactly when replay would cost more than a snapshot."""
from symx.runner import H
from symx.values import *

import pyutil.mathutil
from _zkapauthorizer import _plugin
from _zkapauthorizer.tahoe import ShareEncoding
from checks.replica_common import *

PROPERTY = "C26"
TITLE = "snapshots are taken exactly when the replica costs more than the factor"
ASSUMPTIONS = [
    "the price of an object is that of each of its shares of one `needed`-th of its size, which is what the software charges with (C01)",
    "the sizes in the directory listing are those of the files",
]


def policies():
    return [v for v in vars(_plugin).values() if isinstance(v, type) and hasattr(v, "should_snapshot")]


def ceil_div(x, d):
    return x // d + Ite(x % d != 0, 1, 0)


def price(pv, k, n, size):
    return n * ceil_div(ceil_div(size, k), pv)


def policy(ctx, pv, k, n, factor):
    (cls,) = policies()
    return cls(bytes_per_pass=pv, encoding=ShareEncoding(k, n), factor=factor)


FACTORS = [10, 1, 2, 0.5, 1.25, 3.5]


def h_policy(ctx, entries, pv, k, n):
    if not ctx.concrete:
        Patcher(ctx).builtins().set(pyutil.mathutil, "int", IntShim)
    factor = ctx.pick("factor", FACTORS)
    top = 1 << 44
    size = ctx.int("snapshot", 0, top)
    sizes = [ctx.int("size%d" % i, 0, top) for i in range(ctx.choice("entries", entries + 1))]
    got = policy(ctx, pv, k, n, factor).should_snapshot(size, list(sizes))
    total = 0
    for s in sizes:
        total = total + price(pv, k, n, s)
    want = price(pv, k, n, size) * factor < total
    if got:
        ctx.cover("take one")
        ctx.check(want, "a snapshot is taken only if the replica costs more than the factor times a new one")
    else:
        ctx.cover("take none")
        ctx.check(Not(want), "no snapshot is taken only if the replica does not cost more than the factor times a new one")


class Sized(bytes):
    """A serialized snapshot or stream of some size."""

    n = 0

    def __symlen__(self):
        return self.n


class Sizes(Codec):
    def __init__(self, size):
        super().__init__()
        self.size = size

    def dumps(self, obj, **kw):
        key = Sized(super().dumps(obj))
        if isinstance(obj, dict) and "statements" in obj:
            key.n = self.size
        else:
            key.n = bytes.__len__(key)
        return key


class Listing(Grid):
    """A directory whose files have the sizes the history says."""

    def __init__(self, sizes, new_size):
        super().__init__()
        self.sizes = sizes
        self.new_size = new_size

    def list_directory(self, dir_cap):
        self.listed = dict(self.entries)
        return succeed({
            n: FileNode(size=self.sizes.get(n, self.new_size), ro_uri=c)
            for n, c in self.entries.items()
        })


NAMES = ["snapshot", "event-stream-3", "notes", "snapshot-2", "event-stream-12"]


class Replicated(World):
    def __init__(self, ctx, names, sizes, size, new_size):
        self.size = size
        super().__init__(ctx)
        if ctx.concrete:
            self.patcher.inject("len", sym_len)
            self.codec = self.make_codec().install(self.patcher)
        else:
            self.patcher.set(pyutil.mathutil, "int", IntShim)
        self.grid = Listing(sizes, new_size)
        for name in names:
            self.grid.put(name, b"old")

    def make_codec(self):
        return Sizes(self.size)

    def start(self, policy):
        self.service = R.replication_service(self.wrapped, self.grid.replica(), policy)
        self.keep.append(self.service)
        self.service.startService()


class Real:
    """The real policy, with what it was asked."""

    def __init__(self, policy):
        self.policy, self.asked = policy, 0

    def should_snapshot(self, snapshot_size, replica_sizes):
        self.asked += 1
        return self.policy.should_snapshot(snapshot_size, replica_sizes)


def uploaded(w):
    """Let the pending upload succeed; the name it was linked under."""
    before = dict(w.grid.entries)
    w.grid.decide("ok")
    (name,) = [n for n, c in w.grid.entries.items() if before.get(n) != c]
    return name


def h_service(ctx, changes, names, pv, k, n, factor):
    ctx.opaque_text = True
    top = 1 << 40
    names = [x for x in NAMES[:names] if ctx.flag("there is " + x)]
    sizes = {x: ctx.int("size of " + x, 0, top) for x in names}
    size = ctx.int("size of a new snapshot", 1, top)
    new_size = ctx.int("size of the stream", 1, top)
    w = Replicated(ctx, names, sizes, size, new_size)
    p = Real(policy(ctx, pv, k, n, factor))
    w.start(p)
    if "snapshot" in names:
        ctx.check(not w.grid.pending, "with a snapshot there is nothing to do at the start")
    else:
        ctx.cover("the first snapshot")
        ctx.check(len(w.grid.pending) == 1, "without a snapshot there is one to be made")
        ctx.check(uploaded(w) == "snapshot", "which is the snapshot")
        sizes["snapshot"] = size
        while w.grid.pending:
            ctx.check(w.grid.pending[0].kind == "unlink", "and only streams are removed then")
            w.grid.decide("ok")
    for i in range(changes):
        important = ctx.flag("important%d" % i)
        w.change(important)
        if not important:
            ctx.check(not w.grid.pending, "no upload is due")
            continue
        ctx.check(len(w.grid.pending) == 1, "an important change is uploaded")
        name = uploaded(w)
        ctx.check(name.startswith("event-stream-"), "in an event stream")
        total = 0
        for x in w.grid.entries:
            if x == "snapshot" or x.startswith("event-stream-"):
                total = total + price(pv, k, n, sizes.get(x, new_size))
        want = price(pv, k, n, size) * factor < total
        if not w.grid.pending:
            ctx.cover("no new snapshot")
            ctx.check(Not(want), "there is a new snapshot if the replica costs more than the factor times a new one")
            continue
        ctx.cover("a new snapshot")
        ctx.check(want, "there is a new snapshot only if the replica costs more than the factor times a new one")
        ctx.check(len(w.grid.pending) == 1 and uploaded(w) == "snapshot", "it is the snapshot")
        sizes["snapshot"] = size
        while w.grid.pending:
            w.grid.decide("ok")
        ctx.check(all(x in w.grid.entries for x in names if not x.startswith("event-stream-")), "only event streams are removed")


HARNESSES = []
for pv, (k, n) in [(1000, (3, 5)), (7, (1, 3)), (1 << 20, (3, 10)), (1, (2, 2)), (10 ** 9, (1, 1))]:
    for tier, entries in (("quick", 2), ("thorough", 4)):
        HARNESSES.append(
            H(
                h_policy,
                "policy",
                {"entries": entries, "pv": pv, "k": k, "n": n},
                "up to %d objects and a snapshot of 0..2^44 bytes; pass value %d; %d of %d shares; factors %s" % (entries, pv, k, n, FACTORS),
                ["take one", "take none"],
                tiers=(tier,),
                budget_s=800 if tier == "thorough" else None,
            )
        )
for tier, changes, names, combos in (
    ("quick", 2, 4, [(1, 1, 3, 10), (7, 1, 3, 2)]),
    ("thorough", 3, 4, [(1, 1, 3, 10), (7, 1, 3, 2), (16, 2, 3, 10)]),
    ("thorough", 2, 5, [(7, 1, 3, 2), (1000, 3, 5, 10)]),
):
    for pv, k, n, factor in combos:
        HARNESSES.append(
            H(
                h_service,
                "service",
                {"changes": changes, "names": names, "pv": pv, "k": k, "n": n, "factor": factor},
                "any of the entries %s of 0..2^40 bytes in the replica; the start and %d changes, important or not; new snapshots and streams of 1..2^40 bytes; pass value %d, %d of %d shares, factor %s" % (NAMES[:names], changes, pv, k, n, factor),
                ["the first snapshot", "no new snapshot", "a new snapshot"],
                tiers=(tier,),
                budget_s=800 if tier == "thorough" else None,
            )
        )
