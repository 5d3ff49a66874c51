"""Storage requests cross both ends unchanged; reading needs no passes."""
from allmydata.storage.immutable import FoolscapBucketReader, FoolscapBucketWriter
from foolscap.copyable import CopyableRegistry
from foolscap.referenceable import Referenceable
from twisted.internet.task import Clock

from symx.runner import H
from symx.symbytes import SymBytes
from symx.symtext import SymStr
from symx.values import *

from _zkapauthorizer._storage_client import IncorrectStorageServerReference
from _zkapauthorizer.foolscap import RIPrivacyPassAuthorizedStorageServer as Protocol
from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.storage_common import MorePassesRequired
from checks.client_common import *
from checks.server_common import *

PROPERTY = "C29"
TITLE = "storage requests cross both ends unchanged, and reading is free"
ASSUMPTIONS = [
    "Foolscap delivers arguments and results that satisfy the remote interface as they were (its serialisation is not modelled; its checks against the interface are the real ones)",
    "the wrapped Tahoe storage server is a stand-in that records its arguments and answers anything",
]
SECRETS = (WRITE_ENABLER, RENEW, CANCEL)


class Bucket:
    """What a storage server has for an upload or a stored share."""

    def disconnected(self):
        pass


class Canary(Referenceable):
    def __init__(self):
        self.remote = RemoteCanary(None)


class RemoteCanary(Ref):
    def notifyOnDisconnect(self, f, *a, **kw):
        return object()

    def dontNotifyOnDisconnect(self, marker):
        pass


def copied(v):
    """What arrives at the other end for a value."""
    if isinstance(v, ShareStat):
        state = v.getStateToCopy()
        return CopyableRegistry[v.typeToCopy]().factory({k: copied(x) for k, x in state.items()})
    if isinstance(v, Canary):
        return v.remote
    if type(v) in (list, tuple, set):
        return type(v)(copied(x) for x in v)
    if type(v) is dict:
        return {copied(k): copied(x) for k, x in v.items()}
    return v


def same(a, b):
    """Equality of two values which may hold symbolic ones, and of their
    kinds; a condition."""
    if type(a) in (list, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return And(True, *[same(x, y) for x, y in zip(a, b)])
    if type(a) is dict:
        if type(b) is not dict or set(a) != set(b):
            return False
        return And(True, *[same(a[k], b[k]) for k in a])
    if isinstance(a, (bytes, str, int)) and not isinstance(a, bool):
        if not isinstance(b, type(b) if is_sym(b) else (bytes, str, int)):
            return False
        return a == b
    if isinstance(a, (bool, type(None), set, frozenset)):
        return type(a) is type(b) and a == b
    return a is b


class Backend:
    """A storage server which answers with whatever it was given to answer."""

    my_nodeid = NODEID

    def __init__(self, sharedir):
        self.sharedir = sharedir
        self.calls = []
        self.answer = None

    def register_bucket_writer_close_handler(self, h):
        pass

    def get_available_space(self):
        return 1 << 60

    def _got(self, *call):
        self.calls.append(call)
        return self.answer

    def get_version(self):
        return self._got("get_version")

    def get_buckets(self, storage_index):
        return self._got("get_buckets", storage_index)

    def slot_readv(self, storage_index, shares, readv):
        return self._got("slot_readv", storage_index, shares, readv)

    def advise_corrupt_share(self, share_type, storage_index, shnum, reason):
        return self._got("advise_corrupt_share", share_type, storage_index, shnum, reason)

    def allocate_buckets(self, storage_index, renew_secret, cancel_secret, sharenums, allocated_size, owner_num=0, renew_leases=True):
        return self._got("allocate_buckets", storage_index, renew_secret, cancel_secret, sharenums, allocated_size)

    def add_lease(self, storage_index, renew_secret, cancel_secret, owner_num=1):
        return self._got("add_lease", storage_index, renew_secret, cancel_secret)

    def slot_testv_and_readv_and_writev(self, storage_index, secrets, tw_vectors, r_vector, renew_leases=True):
        return self._got("writev", storage_index, secrets, tw_vectors, r_vector)


class PassGroup:
    """Valid passes for a message, and what happened to them."""

    class P:
        def __init__(self, b):
            self.pass_bytes = b

    def __init__(self, message, n, log, ids=None):
        self.message = message
        self.ids = range(n) if ids is None else ids
        self.passes = [self.P(make_pass(message, i)[0]) for i in self.ids]
        self.log = log

    def split(self, indexes):
        a = [x for i, x in enumerate(self.ids) if i in indexes]
        b = [x for i, x in enumerate(self.ids) if i not in indexes]
        return PassGroup(self.message, 0, self.log, a), PassGroup(self.message, 0, self.log, b)

    def mark_spent(self):
        self.log.append(("spent", len(self.passes)))

    def reset(self):
        self.log.append(("reset", len(self.passes)))


class Pair:
    """A client and a server on the two sides of the remote interface."""

    def __init__(self, ctx, pv=1 << 50, passes=()):
        w = self.w = World(ctx, pv)
        self.backend = Backend(w.sharedir)
        good, _ = keys()
        self.spender = RecordingSpender()
        self.clock = Clock()
        self.server = ss.ZKAPAuthorizerStorageServer(
            self.backend, pv, good, self.spender, CollectorRegistry(), self.clock
        )
        self.ctx = ctx
        self.passes = passes
        self.taken = []
        self.log = []
        self.sent = []
        self.client = ZKAPAuthorizerStorageClient(pv, lambda: Ref(self.carry), self.get_passes, self.clock)

    def get_passes(self, message, n):
        n = n.__index__()
        self.taken.append(n)
        return PassGroup(message, n, self.log)

    def carry(self, name, *args, **kw):
        self.sent.append(name)
        schema = Protocol[name]
        schema.checkAllArgs(args, kw, False)
        args = copied(args)
        schema.checkAllArgs(args, kw, True)
        result = self.server.doRemoteCall(name, args, kw)
        schema.checkResults(result, False)
        return copied(result)

    def free(self, what):
        ctx = self.ctx
        ctx.check(not [n for n in self.taken if n], what + " takes no pass from the wallet", self.taken)
        ctx.check(not self.spender.spent, what + " spends no pass")


def sym_bytes(ctx, name, n):
    return SymBytes([ctx.int("%s%d" % (name, i), 0, 255) for i in range(n)]) if not ctx.concrete else bytes(
        ctx.int("%s%d" % (name, i), 0, 255) for i in range(n)
    )


def vector(ctx, tag, n):
    """Up to n ranges to read."""
    return [
        (ctx.int("off%s%d" % (tag, i), 0, (1 << 64) - 1), ctx.int("len%s%d" % (tag, i), 0, (1 << 31) - 1))
        for i in range(ctx.choice("n" + tag, n + 1))
    ]


def answered(ctx, r, what):
    ctx.check(r[0] == "value", what + " succeeds", repr(r[1])[:300])
    return r[1]


def h_free(ctx, op):
    p = Pair(ctx)
    b, c = p.backend, p.client
    si = ctx.pick("si", [SI, SI2])
    if op == "get_version":
        inner = {b"size": ctx.int("max", 0, (1 << 64) - 1)}
        b.answer = ctx.pick("version", [{b"application-version": b"x", b"v1": inner}, {}])
        got = answered(ctx, outcome(c.get_version()), op)
        want = [("get_version",)]
        ctx.check(same(b.answer, got), "the version is the server's", got)
    elif op == "get_buckets":
        b.answer = {n: Bucket() for n in range(3) if ctx.flag("have%d" % n)}
        got = answered(ctx, outcome(c.get_buckets(si)), op)
        want = [("get_buckets", si)]
        ctx.check(type(got) is dict and set(got) == set(b.answer), "exactly the stored shares can be read", got)
        for n, reader in got.items():
            ctx.check(type(reader) is FoolscapBucketReader, "each is something to read from")
            ctx.check(reader._bucket_reader is b.answer[n], "each share number has its own share")
    elif op == "slot_readv":
        shares = ctx.pick("shares", [[], [0], [2, 0], [255]])
        readv = vector(ctx, "r", 2)
        b.answer = {n: [sym_bytes(ctx, "d%d_%d_" % (n, i), 1) for i in range(len(readv))] for n in (shares or [1])}
        expect = copied(b.answer)
        got = answered(ctx, outcome(c.slot_readv(si, list(shares), list(readv))), op)
        want = [("slot_readv", si, shares, readv)]
        ctx.check(same(expect, got), "what was read is returned", got)
    else:
        kind = ctx.pick("type", [b"mutable", b"immutable"])
        n = ctx.int("shnum", 0, (1 << 31) - 1)
        reason = ctx.pick("why", [b"", b"\xff\x00", None])
        if reason is None:
            reason = sym_bytes(ctx, "reason", 2)
        got = answered(ctx, outcome(c.advise_corrupt_share(kind, si, n, reason)), op)
        ctx.check(got is None, "there is no answer")
        want = [("advise_corrupt_share", kind, si, n, reason)]
    ctx.cover("asked")
    ctx.check(p.sent == [op], "one request is sent", p.sent)
    ctx.check(same(want, b.calls), "the storage server is asked exactly that, once", b.calls)
    p.free(op)
    ctx.check(not p.taken, "no passes are asked for")


def h_stats(ctx, nshares, kind):
    """What both ends say about stored shares, without passes."""
    w = World(ctx, 1 << 50)
    taken = []
    sizes, leases = {}, {}
    for n in range(nshares):
        if not ctx.flag("have%d" % n):
            continue
        size, raw = w.sym_size("size%d" % n, 2)
        # smaller immutable files are not told apart from damaged ones
        ctx.assume(size >= 20)
        exp = ctx.int("exp%d" % n, 0, (1 << 31) - 1)
        w.add_share(n, kind, size, [(exp, b"o" * 32)], raw)
        sizes[n], leases[n] = size, exp
    p = Pair.__new__(Pair)
    p.ctx, p.w, p.server, p.spender, p.sent = ctx, w, w.server, w.spender, []
    ref = Ref(p.carry)
    c = ZKAPAuthorizerStorageClient(1 << 50, lambda: ref, lambda m, n: taken.append(n), w.clock)
    order = ctx.pick("order", [[SI], [SI, SI2], [SI2, SI], [SI2, SI2], [SI, SI], []])
    got = answered(ctx, outcome(c.stat_shares(list(order))), "stat_shares")
    ctx.check(type(got) is list and len(got) == len(order), "one answer for each storage index", got)
    ctx.cover("asked")
    for si, stats in zip(order, got):
        ctx.check(set(stats) == (set(sizes) if si == SI else set()), "every stored share, and no other", stats)
        for n, s in stats.items():
            ctx.check(s.size == sizes[n], "the share's size")
            ctx.check(s.lease_expiration == leases[n], "the share's lease")
    wanted = ctx.pick("wanted", [None, [], [0], [1, 7]])
    got = p.carry("share_sizes", SI, wanted)
    keep = set(sizes) if wanted is None else set(sizes) & set(wanted)
    ctx.check(set(got) == keep, "the sizes of the shares asked about", got)
    for n in keep:
        ctx.check(got[n] == sizes[n], "the share's size")
    ctx.check(not taken and not w.spender.calls and not w.calls, "asking changes and costs nothing")
    for n in sizes:
        ctx.check(w.leases(n) == [leases[n]] if ctx.concrete else len(w.leases(n)) == 1, "leases stay as they are")


def h_stat(ctx):
    a = ShareStat(ctx.int("size", 0, 1 << 63), ctx.int("exp", 0, 1 << 40))
    b = ShareStat(size=ctx.int("size2", 0, 1 << 63), lease_expiration=ctx.int("exp2", 0, 1 << 40))
    eq = And(a.size == b.size, a.lease_expiration == b.lease_expiration)
    ctx.check(Iff(eq, a == b) if not ctx.concrete else eq == (a == b), "stats are equal if their parts are")
    c = copied(a)
    ctx.cover("copied")
    ctx.check(type(c) is ShareStat and c is not a, "a stat arrives as a stat")
    ctx.check(And(c.size == a.size, c.lease_expiration == a.lease_expiration), "with its size and lease")


def h_paid(ctx, op):
    """The operations which need passes: what reaches the storage server and
    what comes back."""
    p = Pair(ctx, pv=1 << 20)
    b, c = p.backend, p.client
    si = ctx.pick("si", [SI, SI2])
    secrets = ctx.pick("secrets", [SECRETS, (b"1" * 32, b"2" * 32, b"3" * 32)])
    free = False
    if op == "allocate_buckets":
        size = ctx.int("size", 1, 1 << 20)
        wanted = set(n for n in (0, 1, 200) if ctx.flag("want%d" % n))
        have = set(n for n in (1, 7) if ctx.flag("has%d" % n))
        writers = {n: Bucket() for n in wanted - have}
        b.answer = (have, writers)
        canary = Canary()
        got = answered(ctx, outcome(c.allocate_buckets(si, secrets[1], secrets[2], set(wanted), size, canary)), op)
        want = [(op, si, secrets[1], secrets[2], wanted, size)]
        ctx.check(got[0] == have, "the shares already there are reported", got)
        ctx.check(set(got[1]) == set(writers), "there is a writer for each new share", got)
        for n, wr in got[1].items():
            ctx.check(type(wr) is FoolscapBucketWriter and wr._bucket_writer is writers[n], "each share number has its own writer")
        price = len(wanted)
    elif op == "add_lease":
        got = answered(ctx, outcome(c.add_lease(si, secrets[1], secrets[2])), op)
        want = [(op, si, secrets[1], secrets[2])]
        ctx.check(got is None, "there is no answer", got)
        price = 0
    else:
        tw, wire, price = {}, {}, 0
        for n in (0, 3):
            if not ctx.flag("vector%d" % n):
                continue
            tests = [
                (ctx.int("to%d_%d" % (n, i), 0, (1 << 64) - 1), ctx.int("tl%d_%d" % (n, i), 0, (1 << 31) - 1), sym_bytes(ctx, "ts%d_%d_" % (n, i), 1))
                for i in range(ctx.choice("tests%d" % n, 3 if n == 0 else 2))
            ]
            data = [(ctx.int("wo%d" % n, 0, 1000), b"data")] if ctx.flag("write%d" % n) else []
            tw[n] = (tests, data, None)
            wire[n] = ([(o, l, b"eq", s) for o, l, s in tests], data, None)
            price += len(data)
        readv = vector(ctx, "r", 1)
        free = price == 0
        ok = ctx.flag("ok")
        b.answer = (ok, {5: [sym_bytes(ctx, "d%d_" % i, 1) for i in range(len(readv))]} if ctx.flag("data") else {})
        expect = (ok, copied(b.answer[1]))
        given = copied(tw)
        got = answered(ctx, outcome(c.slot_testv_and_readv_and_writev(si, secrets, tw, list(readv))), op)
        want = [("writev", si, secrets, wire, readv)]
        ctx.check(type(got) is tuple and same(expect, got), "the result of the tests and what was read come back", got)
        ctx.check(same(given, tw), "the caller's vectors stay as they are")
    ctx.cover("asked")
    ctx.check(p.sent[-1] == op and p.sent.count(op) == 1, "the request is sent once", p.sent)
    ctx.check(same(want, b.calls), "the storage server is asked exactly that, once", b.calls)
    ctx.check(sum(p.taken) == price, "as many passes are taken as the price", p.taken)
    if free:
        ctx.cover("only reads")
        p.free("a request which only tests and reads")


OPS = {
    "get_version": lambda c: c.get_version(),
    "get_buckets": lambda c: c.get_buckets(SI),
    "slot_readv": lambda c: c.slot_readv(SI, [0], [(0, 1)]),
    "advise_corrupt_share": lambda c: c.advise_corrupt_share(b"mutable", SI, 0, b"x"),
    "stat_shares": lambda c: c.stat_shares([SI]),
    "allocate_buckets": lambda c: c.allocate_buckets(SI, RENEW, CANCEL, {0}, 10, None),
    "add_lease": lambda c: c.add_lease(SI, RENEW, CANCEL),
    "slot_testv_and_readv_and_writev": lambda c: c.slot_testv_and_readv_and_writev(SI, SECRETS, {0: ([], [(0, b"x")], None)}, []),
}
NAME = "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"


def h_interface(ctx):
    """A reference to something else is never asked anything."""
    op = ctx.pick("op", sorted(OPS))
    shape = ctx.pick("name", ["like it", "RIStorageServer.tahoe.allmydata.com", NAME + "x", NAME[:-1], "", None])
    if shape == "like it":
        name = [ctx.int("c%d" % i, 32, 126) for i in range(len(NAME))]
        name = "".join(map(chr, name)) if ctx.concrete else SymStr(name)
    else:
        name = shape
    calls, taken = [], []

    def handler(n, *a):
        calls.append(n)
        raise RuntimeError("asked")

    class Taken(Exception):
        pass

    def get_passes(m, n):
        taken.append(n)
        raise Taken()

    ref = Ref(handler)
    ref.tracker.interfaceName = name
    c = ZKAPAuthorizerStorageClient(100, lambda: ref, get_passes, Clock())
    r = outcome(OPS[op](c))
    if isinstance(r[1], IncorrectStorageServerReference):
        ctx.cover("refused")
        ctx.check(name != NAME, "only a reference to something else is refused")
        ctx.check(not calls and not taken, "it is not asked anything, and no pass is taken", (calls, taken))
        ctx.check(r[1].furl == "pb://example" and r[1].expected_name == NAME, "the error names the server", r[1])
    else:
        ctx.cover("asked")
        ctx.check(name == NAME, "a reference to something else is refused", r)
        ctx.check(bool(calls or taken), "a right one is used")


def answers(ctx, op):
    """(an answer to ``op``, whether it is one the protocol allows, what the
    client makes of it)"""
    n = ctx.int("n", 0, 1 << 40)
    x = object()
    stat = ShareStat(n, 7)
    bad = [None, [], (), "text", b"", 3, x]
    good = []
    if op == "get_version":
        good = [{}, {b"k": x}, {b"k": n, b"l": None}]
        bad += [{"k": 1}, {b"k": 1, "l": 2}, {1: 2}]
    elif op == "get_buckets":
        good = [{}, {0: x}, {1: x, 5: stat}]
        bad += [{b"0": x}, {0: x, "1": x}, {None: x}]
    elif op == "stat_shares":
        bad.remove([])
        good = [[{}], [{0: stat, 4: ShareStat(0, 0)}]]
        bad += [{}, [None], [{}, [stat]], [{0: n}], [{0: stat, 1: None}], [{"0": stat}], [{0: stat}, {1: (n, 7)}]]
    elif op == "share_sizes":
        good = [{}, {0: n}, {0: 1, 3: 2}]
        bad += [{0: b"1"}, {"0": 1}, {0: 1, 1: None}, {0: stat}]
    elif op == "slot_testv_and_readv_and_writev":
        good = [(True, {}), (False, {0: [b"x", b""]}), (True, {0: [], 7: [b"y"]})]
        bad += [[True, {}], (True,), (True, {}, {}), (None, {}), (1, {}), (True, []), (True, {0: b"x"}), (True, {0: ["x"]}), (True, {"0": []}), (True, {0: [b"x"], 1: [None]})]
        bad.remove(x)
    i = ctx.choice("answer", len(good) + len(bad))
    return (good[i], True) if i < len(good) else (bad[i - len(good)], False)


def h_answers(ctx, op):
    """Answers which are not what the protocol allows are not believed."""
    if not ctx.concrete:
        Patcher(ctx).builtins()
    answer, allowed = answers(ctx, op)
    caller = {"share_sizes": "add_lease"}.get(op, op)
    log, taken = [], []

    def handler(name, *args):
        if name == op:
            return answer
        if name == "stat_shares":
            return [{}]
        return None

    def get_passes(message, n):
        taken.append(n)
        return PassGroup(message, min(n, 3) if not is_sym(n) else 3, log)

    c = ZKAPAuthorizerStorageClient(1 << 40, lambda: Ref(handler), get_passes, Clock())
    if op == "stat_shares" and ctx.flag("to write"):
        caller = "slot_testv_and_readv_and_writev"
        handler0 = handler

        def handler(name, *args):
            return (True, {}) if name == caller else handler0(name, *args)

    r = outcome(OPS[caller](c))
    if allowed:
        ctx.cover("believed")
        v = answered(ctx, r, "an allowed answer")
        if caller == op:
            ctx.check(same_value(answer, v), "the answer is returned as it was", v)
    else:
        ctx.cover("refused")
        ctx.check(r[0] == "error" and isinstance(r[1], (ValueError, TypeError)), "another answer is an error", r)
        if caller == op == "slot_testv_and_readv_and_writev":
            ctx.check([k for k, _ in log] == ["reset"], "the passes are put back", log)
        else:
            ctx.check(not taken, "no passes are taken", taken)


def same_value(a, b):
    if isinstance(a, ShareStat):
        return isinstance(b, ShareStat) and And(a.size == b.size, a.lease_expiration == b.lease_expiration)
    if type(a) in (list, tuple):
        return type(a) is type(b) and len(a) == len(b) and And(True, *[same_value(x, y) for x, y in zip(a, b)])
    if type(a) is dict:
        return type(b) is dict and set(a) == set(b) and And(True, *[same_value(a[k], b[k]) for k in a])
    return same(a, b)


HARNESSES = []
for op in ("get_version", "get_buckets", "slot_readv", "advise_corrupt_share"):
    HARNESSES.append(
        H(h_free, "free " + op, {"op": op}, "two storage indexes; any share numbers, offsets and lengths the interface allows; up to 2 ranges; any of 3 shares", ["asked"])
    )
for op in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"):
    HARNESSES.append(
        H(
            h_paid,
            "paid " + op,
            {"op": op},
            "two storage indexes, two sets of secrets; up to 3 shares; up to 2 test vectors with any offset, length and content, 1 write of 4 bytes anywhere, 1 range to read",
            ["asked"] + (["only reads"] if op.startswith("slot") else []),
        )
    )
for kind in ("immutable", "mutable"):
    for tier, n in (("quick", 2), ("thorough", 3)):
        HARNESSES.append(
            H(h_stats, "stats of %s shares" % kind, {"nshares": n, "kind": kind}, "up to %d shares of 20..65535 bytes with any lease; lists of up to 2 storage indexes" % n, ["asked"], tiers=(tier,))
        )
HARNESSES.append(H(h_stat, "stat", {}, "any two sizes and expirations", ["copied"]))
HARNESSES.append(H(h_interface, "interface", {}, "every operation; any name of the same length, and %d others" % 5, ["refused", "asked"]))
for op in ("get_version", "get_buckets", "stat_shares", "share_sizes", "slot_testv_and_readv_and_writev"):
    HARNESSES.append(H(h_answers, "answers to " + op, {"op": op}, "the listed shapes of answers with any number in them", ["believed", "refused"]))
