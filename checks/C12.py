"""Every lease that will expire too soon is renewed, and no other."""
from datetime import timedelta

from allmydata.interfaces import IFilesystemNode
from allmydata.util.hashutil import (
    bucket_cancel_secret_hash,
    bucket_renewal_secret_hash,
    file_cancel_secret_hash,
    file_renewal_secret_hash,
)
from symx import timesym
from symx.env import Patcher, quiet_eliot
from symx.runner import H
from symx.values import *
from twisted.internet.defer import Deferred, succeed
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer import lease_maintenance as L
from _zkapauthorizer import model as M
from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.foolscap import ShareStat
from checks.client_common import Ref, outcome

quiet_eliot()
PROPERTY = "C12"
TITLE = "every lease that will expire too soon is renewed, and no other"
ASSUMPTIONS = [
    "every server answers (a failing server ends the run, which C14 repeats)",
    "the clock is at least 2001 and does not move during the run; expirations are whole seconds, as the storage format stores them, 0 standing for no lease",
    "the lease renewal call itself is recorded, not carried out (C03, C05, C06 decide it)",
    "datetime and timedelta: exact microsecond arithmetic (symx/timesym.py); concrete replays use the real classes",
]
US = 1000000
NOW_MIN = 10 ** 15
NOW_MAX = 2 ** 32 * US
DAY = 86400 * US


@implementer(IFilesystemNode)
class File:
    def __init__(self, si):
        self.si = si

    def get_storage_index(self):
        return self.si


class Server:
    """A connected storage server: the real client's statistics call over a
    scripted network; renewals are recorded."""

    def __init__(self, ctx, number, shares, pass_value=1000):
        self.number = number
        self.seed = b"seed%016d" % number
        self.shares = shares  # storage index -> {share number: ShareStat}
        self.asked = []
        self.renewed = []
        self.client = ZKAPAuthorizerStorageClient(pass_value, lambda: Ref(self.answer), None, Clock())

    def answer(self, name, *args):
        assert name == "stat_shares", name
        (indexes,) = args
        self.asked.extend(indexes)
        return [dict(self.shares[i]) for i in indexes]

    def get_storage_server(self):
        return self

    def stat_shares(self, indexes):
        return self.client.stat_shares(indexes)

    def get_lease_seed(self):
        return self.seed

    def add_lease(self, si, renew, cancel):
        self.renewed.append((si, renew, cancel))
        return succeed(None)


class Broker:
    def __init__(self, servers):
        self.servers = servers

    def get_connected_servers(self):
        return list(self.servers)


class Secrets:
    def get_renewal_secret(self):
        return b"r" * 32

    def get_cancel_secret(self):
        return b"c" * 32


class Observer:
    def __init__(self):
        self.sizes = []
        self.finished = 0

    def observe(self, sizes):
        assert not self.finished
        self.sizes.extend(list(sizes))

    def finish(self):
        self.finished += 1


def setup_time(ctx):
    if not ctx.concrete:
        ctx.opaque_text = True
        p = Patcher(ctx)
        p.builtins()
        timesym.install(p)
    now_us = ctx.int("now", NOW_MIN, NOW_MAX)
    least_us = ctx.int("threshold", -DAY, 60 * DAY)
    return now_us, least_us


def run(ctx, servers, indexes, max_shares=2, roots=None):
    now_us, least_us = setup_time(ctx)
    si = [b"index-%02d........" % i for i in range(indexes)]
    world = []
    for s in range(servers):
        shares = {}
        for i in range(indexes):
            n = ctx.choice("shares%d.%d" % (s, i), max_shares + 1)
            shares[si[i]] = {
                2 * k + i: ShareStat(
                    ctx.int("size%d.%d.%d" % (s, i, k), 0, 2 ** 40),
                    ctx.int("expires%d.%d.%d" % (s, i, k), 0, 2 ** 32 - 1),
                )
                for k in range(n)
            }
        world.append(Server(ctx, s, shares))
    order = list(range(indexes))
    if roots == "twice" and indexes:
        order = order + [0]
    seen = []
    observer = Observer()

    def progress():
        seen.append(observer)
        return observer

    op = L.maintain_leases_from_root(
        lambda: [File(si[i]) for i in order],
        Broker(world),
        Secrets(),
        timesym.delta_of(ctx, least_us),
        progress,
        lambda: timesym.time_of(ctx, now_us),
    )
    kind, value = outcome(Deferred.fromCoroutine(op()))
    ctx.check(kind == "value", "the maintenance run completes", (kind, value))
    return now_us, least_us, si, world, seen, observer


def verdict(ctx, now_us, least_us, si, world, seen, observer):
    expected_sizes = []
    for w in world:
        ctx.check(sorted(w.asked) == sorted(si), "every server is asked once about every storage index", w.asked)
        for i in si:
            calls = [c for c in w.renewed if c[0] == i]
            stats = list(w.shares[i].values())
            ctx.check(len(calls) <= 1, "a lease is renewed at most once")
            due = Or(*[s.lease_expiration * US - now_us < least_us for s in stats])
            if calls:
                ctx.cover("renewed")
                ctx.check(len(stats) > 0, "nothing is renewed where the server holds no share")
                ctx.check(due, "only leases about to expire are renewed")
                (_, renew, cancel) = calls[0]
                ctx.check(
                    renew == bucket_renewal_secret_hash(file_renewal_secret_hash(b"r" * 32, i), w.seed),
                    "the renewal secret is the one of this client, index and server",
                )
                ctx.check(
                    cancel == bucket_cancel_secret_hash(file_cancel_secret_hash(b"c" * 32, i), w.seed),
                    "the cancel secret is the one of this client, index and server",
                )
            else:
                ctx.cover("left alone" if stats else "no share")
                ctx.check(Not(due), "every lease about to expire is renewed")
            expected_sizes.extend(s.size for s in stats)
        ctx.check(len(w.renewed) == len([c for c in w.renewed if c[0] in w.shares]), "no other index is renewed")
    ctx.check(len(seen) == 1, "one observer per run")
    ctx.check(observer.finished == 1, "the run is reported finished once")
    ctx.check(len(observer.sizes) == len(expected_sizes), "as many sizes are observed as there are shares")
    same = len(expected_sizes) == len(observer.sizes)
    if same:
        # as multisets: the sizes are independent variables, so comparing the
        # counts of each decides it
        for x in expected_sizes:
            ctx.check(
                Sum([Ite(x == y, 1, 0) for y in expected_sizes])
                == Sum([Ite(x == y, 1, 0) for y in observer.sizes]),
                "exactly the sizes of the shares found are observed",
            )


def crawl(ctx, servers, indexes, max_shares=2, roots=None):
    verdict(ctx, *run(ctx, servers, indexes, max_shares, roots))


def decision(ctx, shares):
    """One server, one index, more shares."""
    verdict(ctx, *run(ctx, 1, 1, shares))


HARNESSES = [
    H(decision, "decision", {"shares": 4}, bounds="1 server x 1 index, up to 4 shares, symbolic sizes, expirations, clock and threshold", covers=["renewed", "left alone", "no share"]),
    H(crawl, "alignment", {"servers": 1, "indexes": 3, "max_shares": 1}, bounds="1 server x 3 indexes, 0-1 shares each", covers=["renewed", "left alone", "no share"]),
    H(crawl, "servers", {"servers": 2, "indexes": 2, "max_shares": 1}, bounds="2 servers x 2 indexes, 0-1 shares each", covers=["renewed", "left alone", "no share"]),
    H(crawl, "duplicate", {"servers": 1, "indexes": 2, "max_shares": 1, "roots": "twice"}, bounds="one index reached twice", covers=["renewed"]),
    H(crawl, "empty", {"servers": 2, "indexes": 0}, bounds="nothing to maintain", covers=[]),
    H(crawl, "no servers", {"servers": 0, "indexes": 2}, bounds="no server connected", covers=[]),
    H(decision, "decision-6", {"shares": 6}, bounds="1 server x 1 index, up to 6 shares", covers=["renewed", "left alone"], tiers=("thorough",)),
    H(crawl, "2x2x2", {"servers": 2, "indexes": 2, "max_shares": 2}, bounds="2 servers x 2 indexes, 0-2 shares each", covers=["renewed", "left alone", "no share"], tiers=("thorough",), budget_s=800),
    H(crawl, "1x4x2", {"servers": 1, "indexes": 4, "max_shares": 2}, bounds="1 server x 4 indexes, 0-2 shares each", covers=["renewed", "left alone", "no share"], tiers=("thorough",), budget_s=800),
]
