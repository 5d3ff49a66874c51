"""Client and server compute the same price for every operation."""
from symx.runner import H
from symx.values import blob

from _zkapauthorizer import NAME
from _zkapauthorizer import _plugin, controller
from _zkapauthorizer._storage_client import IncorrectStorageServerReference
from _zkapauthorizer.storage_common import (
    MorePassesRequired,
    add_lease_message,
    allocate_buckets_message,
    slot_testv_and_readv_and_writev_message,
)
from checks.client_common import *
from checks.server_common import *

PROPERTY = "C05"
TITLE = "client and server agree on the price of every operation"
ASSUMPTIONS = [
    "the client and server clocks agree and the shares do not change between the client's question and its request",
    "calls cross the network unchanged (Foolscap's serialisation is not modelled)",
    "file system, share containers and the Tahoe storage backend: models in symx/symbytes.py and checks/server_common.py; sampled paths re-run on a real StorageServer and real share files",
]
TMAX = 1 << 30


class Asked(Exception):
    """Stop the client at the point where it asks the wallet for passes."""


def client_for(w, asked):
    def handler(name, *args):
        if name in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"):
            asked.append(("submitted", name, args))
            raise Asked()
        return getattr(w.server, "remote_" + name)(*args)

    def get_passes(message, n):
        asked.append(("price", message, n))
        raise Asked()

    ref = Ref(handler)
    return ZKAPAuthorizerStorageClient(w.server._pass_value, lambda: ref, get_passes, w.clock)


def server_price(f):
    """What the server requires: it refuses when nothing is presented, unless
    the price is zero."""
    try:
        f()
    except MorePassesRequired as e:
        return e.required_count
    return 0


def agree(ctx, w, asked, result, message, price):
    ctx.check(result[0] == "error" and isinstance(result[1], Asked), "the client gets as far as paying", result)
    ctx.check(len(asked) == 1 and asked[0][0] == "price", "passes are asked for once")
    ctx.check(asked[0][1] == message, "the passes are bound to the message the server expects")
    ctx.check(asked[0][2] == price, "the client's price is the server's price")
    ctx.observe("price", price)


def h_immutable(ctx, nshares, pv):
    w = World(ctx, pv)
    size = ctx.int("size", 0, 1 << 40)
    wanted = set(i for i in range(nshares) if ctx.flag("want%d" % i))
    asked = []
    c = client_for(w, asked)
    r = outcome(c.allocate_buckets(SI, RENEW, CANCEL, set(wanted), size, w.canary))
    price = server_price(
        lambda: w.server.remote_allocate_buckets([], SI, RENEW, CANCEL, set(wanted), size, w.canary)
        if price_positive(ctx, wanted, size)
        else None
    )
    ctx.cover("compared")
    agree(ctx, w, asked, r, allocate_buckets_message(SI), price)


def price_positive(ctx, wanted, size):
    # a price of zero would allocate for real; both sides' arithmetic is C01's
    return bool(wanted) and bool(size > 0)


def h_add_lease(ctx, nshares, pv, kind):
    w = World(ctx, pv)
    top = 3 * pv + 2
    nb = max(1, (top.bit_length() + 7) // 8)
    for i in range(nshares):
        if ctx.flag("have%d" % i):
            size, raw = w.sym_size("size%d" % i, nb)
            ctx.assume(size <= top)
            leases = [(5, b"o" * 32)]
            w.add_share(i, kind, size, leases, raw)
    asked = []
    c = client_for(w, asked)
    r = outcome(c.add_lease(SI, RENEW, CANCEL))
    price = server_price(lambda: w.server.remote_add_lease([], SI, RENEW, CANCEL))
    ctx.cover("compared")
    agree(ctx, w, asked, r, add_lease_message(SI), price)


def h_writev(ctx, nshares, nleases, nvec, pv):
    now = ctx.int("now", 0, TMAX)
    w = World(ctx, pv, now)
    top = 4 * pv + 2
    nb = max(1, (top.bit_length() + 7) // 8)
    tw, server_tw = {}, {}
    for i in range(nshares):
        if ctx.flag("have%d" % i):
            size, raw = w.sym_size("size%d" % i, nb)
            ctx.assume(size <= top)
            leases = []
            for j in range(ctx.choice("nleases%d" % i, nleases + 1)):
                leases.append((ctx.int("exp%d_%d" % (i, j), 0, TMAX), bytes([65 + j]) * 32))
            w.add_share(i, "mutable", size, leases, raw)
        mode = ctx.choice("vectors%d" % i, nvec + 2)
        if mode == nvec + 1:
            continue
        datav = []
        for j in range(mode):
            off = ctx.int("off%d_%d" % (i, j), 0, top)
            datav.append((off, blob(ctx, "len%d_%d" % (i, j), 64)))
        testv = [(0, 1, b"")] if ctx.flag("test%d" % i) else []
        tw[i] = (testv, list(datav), None)
        server_tw[i] = ([(o, n, b"eq", s) for o, n, s in testv], list(datav), None)
    asked = []
    c = client_for(w, asked)
    r = outcome(
        c.slot_testv_and_readv_and_writev(SI, (WRITE_ENABLER, RENEW, CANCEL), tw, [(0, 1)])
    )
    price = server_price(
        lambda: w.server.remote_slot_testv_and_readv_and_writev(
            [], SI, (WRITE_ENABLER, RENEW, CANCEL), server_tw, [(0, 1)]
        )
    )
    ctx.cover("compared")
    if any(d for _, d, _ in tw.values()):
        ctx.cover("with writes")
    agree(ctx, w, asked, r, slot_testv_and_readv_and_writev_message(SI), price)


def h_honest(ctx, pv, op):
    """End to end, with real passes for exactly the price the client computed"""
    now = ctx.int("now", 0, TMAX)
    w = World(ctx, pv, now)
    top = 2 * pv
    nb = max(1, (top.bit_length() + 7) // 8)
    submitted = []

    def handler(name, *args):
        if name in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"):
            submitted.append(args)
        return getattr(w.server, "remote_" + name)(*args)

    class Group:
        def __init__(self, message, n):
            n = int(n) if ctx.concrete else n.__index__() if is_sym(n) else n
            enc = [make_pass(message, i)[0] for i in range(n)]
            self.passes = [FakePass(b) for b in enc]
            self.fate = []

        def split(self, idx):
            a, b = Group(b"", 0), Group(b"", 0)
            a.passes = [p for i, p in enumerate(self.passes) if i in idx]
            b.passes = [p for i, p in enumerate(self.passes) if i not in idx]
            groups.extend([a, b])
            return a, b

        def expand(self, n):
            self.fate.append("expanded")
            raise RuntimeError("an honest client had to add passes")

        def mark_spent(self):
            spent.extend(self.passes)

        def mark_invalid(self, reason):
            self.fate.append("invalid")
            raise RuntimeError("an honest client's passes were rejected")

        def reset(self):
            returned.extend(self.passes)

    groups, spent, returned = [], [], []
    ref = Ref(handler)
    c = ZKAPAuthorizerStorageClient(pv, lambda: ref, Group, w.clock)
    if op == "allocate":
        size = ctx.int("size", 0, top)
        wanted = set()
        for i in range(2):
            st = ctx.pick("share%d" % i, ["absent", "wanted", "in progress"])
            if st == "in progress":
                w.add_incoming(i)
            if st != "absent":
                wanted.add(i)
        r = outcome(c.allocate_buckets(SI, RENEW, CANCEL, wanted, size, w.canary))
    else:
        kind = "mutable"
        for i in range(2):
            if ctx.flag("have%d" % i):
                size, raw = w.sym_size("size%d" % i, nb)
                ctx.assume(size <= top)
                w.add_share(i, kind, size, [(ctx.int("exp%d" % i, 0, TMAX), b"o" * 32)], raw)
        if op == "add_lease":
            r = outcome(c.add_lease(SI, RENEW, CANCEL))
        else:
            off = ctx.int("off", 0, top)
            tw = {0: ([], [(off, b"abc")], None)}
            r = outcome(c.slot_testv_and_readv_and_writev(SI, (WRITE_ENABLER, RENEW, CANCEL), tw, []))
    ctx.check(r[0] == "value", "an honest client is not refused", repr(r[1])[:300])
    ctx.cover("accepted")
    n = len(w.spender.spent)
    ctx.check(len(submitted) == 1, "one request is enough")
    ctx.check(len(spent) == n, "client and server record the same number of passes as spent")
    ctx.check(
        [p.pass_bytes.split(b" ")[0] for p in spent] == w.spender.spent,
        "client and server record the very same passes as spent",
    )
    ctx.check(len(spent) + len(returned) == len(submitted[0][0]), "every other pass comes back")
    ctx.observe("spent", n)


class FakePass:
    def __init__(self, b):
        self.pass_bytes = b


class Config:
    """Only the options a node configuration holds."""

    def __init__(self, items):
        self.items = items

    def get_config(self, section, option, default=None):
        if (section, option) in self.items:
            return self.items[section, option]
        if default is None:
            raise KeyError(option)
        return default


def h_config(ctx):
    """Wiring: pass value and issuer"""
    section = "storageclient.plugins." + NAME
    urls = ["http://a.example/", "http://b.example/"]
    mine = ctx.pick("my issuer", urls)
    theirs = ctx.pick("their issuer", urls)
    set_pv = ctx.flag("pass value configured")
    pv = ctx.int("pv", 1, 1 << 30)
    items = {(section, "ristretto-issuer-root-url"): mine}
    if not ctx.concrete:
        Patcher(ctx).builtins()
    server_config = {
        "ristretto-issuer-root-url": theirs,
        "ristretto-signing-key-path": "unused",
    }
    if set_pv:
        items[section, "pass-value"] = pv
        server_config["pass-value"] = pv
    made = []

    from allmydata.storage.server import StorageServer

    p = Patcher(ctx)
    good, _ = keys()
    p.replace(_plugin.load_signing_key, lambda path: good)
    real = _plugin.ZKAPAuthorizerStorageServer

    def make_server(original, pass_value, signing_key, spender, registry, clock):
        made.append(pass_value)
        return real(original, pass_value, signing_key, spender, registry, clock)

    p.replace(real, make_server)
    if not ctx.concrete:
        p.replace(Histogram, FakeHistogram)
    plugin = _plugin.ZKAPAuthorizer(NAME, FakeReactor(), None)
    backend = FakeBackend(Bag(sharedir="/nonexistent"))
    got = outcome(plugin.get_storage_server(server_config, lambda: backend))
    ctx.check(got[0] == "value", "the server starts", got)
    announcement = got[1].announcement
    try:
        r = controller.RistrettoRedeemer.make(section, Config(items), announcement, FakeReactor())
    except controller.IssuerConfigurationMismatch:
        ctx.cover("refused")
        ctx.check(mine != theirs, "a server of the same issuer is accepted")
    else:
        ctx.cover("accepted")
        ctx.check(mine == theirs, "a server of another issuer is refused")
    client_pv = _plugin.get_configured_pass_value(Config(items))
    ctx.check(len(made) == 1 and made[0] == client_pv, "the same configuration gives the same pass value")
    if set_pv:
        ctx.check(client_pv == pv, "the configured pass value is used")
    ctx.observe("pv", client_pv)


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class FakeReactor(Clock):
    def callWhenRunning(self, *a):
        pass

    def addSystemEventTrigger(self, *a):
        pass


def h_wrong_server(ctx):
    """A reference to some other kind of remote object is never used"""
    method = ctx.pick(
        "method",
        ["get_version", "allocate_buckets", "get_buckets", "add_lease", "stat_shares", "advise_corrupt_share", "writev", "slot_readv"],
    )
    right = ctx.flag("right")
    calls = []

    def handler(name, *args):
        calls.append(name)
        raise Asked()

    def get_passes(m, n):
        calls.append("passes")
        raise Asked()

    ref = Ref(handler, None if right else "RIStorageServer.tahoe.allmydata.com")
    c = ZKAPAuthorizerStorageClient(1000, lambda: ref, get_passes, Clock())
    args = {
        "get_version": ("get_version",),
        "allocate_buckets": ("allocate_buckets", SI, RENEW, CANCEL, {0}, 10, None),
        "get_buckets": ("get_buckets", SI),
        "add_lease": ("add_lease", SI, RENEW, CANCEL),
        "stat_shares": ("stat_shares", [SI]),
        "advise_corrupt_share": ("advise_corrupt_share", b"immutable", SI, 0, b"reason"),
        "writev": ("slot_testv_and_readv_and_writev", SI, (RENEW,) * 3, {0: ([], [(0, b"x")], None)}, []),
        "slot_readv": ("slot_readv", SI, [0], []),
    }[method]
    r = outcome(maybeDeferred(getattr(c, args[0]), *args[1:]))
    ctx.check(r[0] == "error", "fails")
    if right:
        ctx.cover("right")
        ctx.check(isinstance(r[1], Asked), "the right kind of server is used")
    else:
        ctx.cover("wrong")
        ctx.check(isinstance(r[1], IncorrectStorageServerReference), "the wrong kind is reported", r)
        ctx.check(not calls, "the wrong kind gets no message and no passes are taken")


HARNESSES = [
    H(h_config, bounds="pass value configured (1..2^30) or not; issuers equal or different", covers=["accepted", "refused"]),
    H(h_wrong_server, bounds="each remote method; right or wrong interface", covers=["right", "wrong"]),
]


def add(fn, tiers=("quick", "thorough"), covers=("compared",), **p):
    HARNESSES.append(
        H(fn, params=p, bounds="see parameters; times 0..2^30, sizes up to a few pass values", covers=covers, tiers=tiers)
    )


T = ("thorough",)
for pv in (1, 7, 1000, 1 << 20):
    add(h_immutable, nshares=3, pv=pv)
add(h_add_lease, nshares=3, pv=1000, kind="immutable")
add(h_add_lease, nshares=2, pv=1 << 20, kind="mutable")
add(h_add_lease, nshares=3, pv=7, kind="mutable", tiers=T)
add(h_writev, nshares=1, nleases=2, nvec=2, pv=1000, covers=("compared", "with writes"))
add(h_writev, nshares=2, nleases=1, nvec=1, pv=7, covers=("compared", "with writes"))
add(h_writev, nshares=1, nleases=1, nvec=1, pv=1 << 20, covers=("compared", "with writes"))
add(h_writev, nshares=2, nleases=2, nvec=2, pv=1000, covers=("compared", "with writes"), tiers=T)
add(h_writev, nshares=3, nleases=1, nvec=1, pv=1000, covers=("compared", "with writes"), tiers=T)
for op in ("allocate", "add_lease", "writev"):
    add(h_honest, pv=100, op=op, covers=("accepted",))
