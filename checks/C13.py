"""The maintenance crawl visits everything reachable, once, and terminates."""
from datetime import datetime, timedelta

from allmydata.interfaces import IDirectoryNode, IFilesystemNode
from allmydata.unknown import UnknownNode
from symx.env import quiet_eliot
from symx.runner import H
from symx.values import *
from twisted.internet.defer import Deferred, fail, succeed
from zope.interface import implementer

from _zkapauthorizer import lease_maintenance as L
from checks.C12 import Broker, Observer, Secrets, Server
from checks.client_common import outcome

quiet_eliot()
PROPERTY = "C13"
TITLE = "the maintenance crawl visits everything reachable, once, and terminates"
ASSUMPTIONS = [
    "the graph does not change during the crawl",
    "a directory is listed by node.list(), which gives a dict of name to (node, metadata), possibly later, with fresh node objects each time",
    "a crawl that lists directories more than 60 times over is taken not to terminate",
    "nodes without a storage index cannot be part of a cycle (they are immutable)",
]


@implementer(IFilesystemNode)
class Node:
    def __init__(self, graph, n):
        self.graph, self.n = graph, n

    def get_storage_index(self):
        return self.graph.si(self.n)


@implementer(IDirectoryNode)
class Directory(Node):
    def list(self):
        return self.graph.list(self.n)


class Looping(Exception):
    pass


class Graph:
    """``dirs`` directories, then ``leaves`` leaf nodes; whether one is a child
    of another is decided when the code first looks."""

    def __init__(self, ctx, dirs, leaves, literal_dir, late=False):
        self.ctx = ctx
        self.dirs, self.leaves = dirs, leaves
        self.literal_dir = literal_dir
        self.kinds = {}
        self.edges = {}
        self.lists = 0
        self.listed = set()
        self.late = late
        self.waiting = []
        self.unreadable = None

    def kind(self, n):
        if n not in self.kinds:
            if n >= self.dirs:
                self.kinds[n] = self.ctx.pick("kind%d" % n, ["file", "literal", "unknown", "directory as file"])
            elif self.literal_dir and n == self.dirs - 1:
                self.kinds[n] = "literal directory"
            else:
                self.kinds[n] = "directory"
        return self.kinds[n]

    def si(self, n):
        if self.kind(n) in ("literal", "unknown", "literal directory"):
            return None
        if self.kind(n) == "directory as file":
            # the file holding the content of the first directory
            n = 0
        return b"index-%010d" % n

    def node(self, n):
        k = self.kind(n)
        if k == "unknown":
            return UnknownNode(None, b"ro.future:%d" % n)
        return (Directory if n < self.dirs else Node)(self, n)

    def edge(self, i, j):
        if (i, j) not in self.edges:
            if self.literal_dir and i == self.dirs - 1 and j < self.dirs:
                self.edges[i, j] = False
            else:
                self.edges[i, j] = self.ctx.flag("edge%d-%d" % (i, j))
        return self.edges[i, j]

    def children(self, i):
        return [j for j in range(self.dirs + self.leaves) if self.edge(i, j)]

    def list(self, i):
        self.lists += 1
        if self.lists > 60:
            raise Looping()
        self.listed.add(i)
        if i == self.unreadable:
            return fail(IOError("not enough shares"))
        found = {}
        for j in self.children(i):
            # a child may carry two names
            for name in ("z%d" % j, "a%d" % j)[: 2 if (i + j) % 2 else 1]:
                found[name] = (self.node(j), {})
        if self.late:
            d = Deferred()
            self.waiting.append((d, found))
            return d
        return succeed(found)

    def settle(self):
        while self.waiting:
            d, found = self.waiting.pop(0)
            d.callback(found)

    def reachable(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                if n < self.dirs and n != self.unreadable:
                    todo.extend(self.children(n))
        return seen


def run(ctx, graph, roots, server, observer):
    op = L.maintain_leases_from_root(
        lambda: [graph.node(n) for n in roots],
        Broker([server]),
        Secrets(),
        timedelta(0),
        lambda: observer,
        lambda: datetime(2030, 1, 1),
    )
    return op


class Everything(dict):
    """No shares anywhere."""

    def __missing__(self, k):
        return {}


def crawl(ctx, dirs, leaves, literal_dir=False, extra_root=False, late=False, unreadable=False):
    g = Graph(ctx, dirs, leaves, literal_dir, late)
    roots = [0]
    if extra_root and ctx.flag("second root"):
        roots.append(ctx.choice("second", dirs + leaves))
    if unreadable:
        g.unreadable = ctx.choice("unreadable", dirs)
    server, observer = Server(ctx, 0, Everything()), Observer()
    op = run(ctx, g, roots, server, observer)
    for turn in range(2 if extra_root else 1):
        server.asked.clear()
        observer.finished = 0
        d = Deferred.fromCoroutine(op())
        g.settle()
        kind, value = outcome(d)
        ctx.check(not isinstance(value, Looping), "the crawl terminates")
        reach = g.reachable(roots)
        if g.unreadable in reach:
            ctx.cover("unreadable")
            ctx.check(kind == "error", "a directory that cannot be read fails the run")
            ctx.check(not observer.finished, "a failed run is not reported finished")
            return
        ctx.check(kind == "value", "the crawl completes", (kind, value))
        want = sorted({g.si(n) for n in reach if g.si(n) is not None})
        ctx.check(None not in server.asked, "a node without a storage index is never passed on")
        asked = sorted(x for x in server.asked if x is not None)
        ctx.check(len(asked) == len(set(asked)), "every storage index is passed on once", asked)
        ctx.check(set(asked) >= set(want), "everything reachable is visited", (asked, want))
        ctx.check(set(asked) <= set(want), "nothing unreachable is visited", (asked, want))
        ctx.check(observer.finished == 1, "the run is reported finished")
        if any(g.edges.get((i, i)) for i in range(dirs)) or (g.edges.get((0, 1)) and g.edges.get((1, 0))):
            ctx.cover("cycle")
        if any(g.si(n) is None for n in reach):
            ctx.cover("no storage index")
        if len(want) >= 2:
            ctx.cover("several")
        # the roots are looked up again for the next run
        roots[0] = dirs - 1


HARNESSES = [
    H(crawl, "dirs", {"dirs": 3, "leaves": 0}, bounds="every graph of 3 directories", covers=["cycle", "several"]),
    H(crawl, "leaves", {"dirs": 2, "leaves": 2}, bounds="every graph of 2 directories and 2 leaves (file, literal or unknown)", covers=["cycle", "several", "no storage index"]),
    H(crawl, "literal dir", {"dirs": 2, "leaves": 2, "literal_dir": True}, bounds="a directory, a literal directory and 2 leaves", covers=["several"]),
    H(crawl, "late", {"dirs": 2, "leaves": 1, "late": True}, bounds="listings that arrive later", covers=["cycle", "several"]),
    H(crawl, "roots", {"dirs": 2, "leaves": 1, "extra_root": True}, bounds="one or two roots; roots changing between runs", covers=["several"]),
    H(crawl, "unreadable", {"dirs": 2, "leaves": 1, "unreadable": True}, bounds="one directory that cannot be listed", covers=["unreadable"]),
    H(crawl, "3+1", {"dirs": 3, "leaves": 1}, bounds="every graph of 3 directories and 1 leaf", covers=["cycle", "several", "no storage index"], tiers=("thorough",), budget_s=800),
    H(crawl, "4", {"dirs": 4, "leaves": 0}, bounds="every graph of 4 directories", covers=["cycle", "several"], tiers=("thorough",), budget_s=850, max_paths=100000),
]
