"""Configuration means the same to every part of the system."""
import base64
import os
import random
import shutil
import sqlite3
import tempfile

import twisted.internet
from allmydata.client import _Client
from allmydata.node import MissingConfigEntry
from challenge_bypass_ristretto import PublicKey
from symx import numtext, sqlsym, symtext, timesym
from symx.env import Patcher, quiet_eliot
from symx.numtext import number_text
from symx.runner import H
from symx.values import *
from twisted.application.service import MultiService, Service
from twisted.internet.task import Clock

from _zkapauthorizer import _plugin
from _zkapauthorizer import lease_maintenance as L
from _zkapauthorizer import model as M
from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.storage_common import MorePassesRequired
from checks import C12 as maintenance
from checks import maintenance_common
from checks import web_common as web
from checks.client_common import Ref, outcome
from checks.server_common import CANCEL, RENEW, SI, FakeBackend, FakeCanary, World, keys, make_pass
from checks.wallet_common import NOW, FaultyConnection, rows

quiet_eliot()

PROPERTY = "C31"
TITLE = "configuration means the same to every part of the system"
ASSUMPTIONS = [
    "numbers in the configuration are written in decimal, as the documentation shows; a malformed number is an error at start and outside",
    "the text of tahoe.cfg is split into sections and options by Tahoe-LAFS; what get_config returns is the input here",
    "the wallet database is the symbolic engine (symx/sqlsym.py), SQLite in the concrete replays",
]
NAME = "privatestorageio-zkapauthz-v2"
CLIENT = "storageclient.plugins." + NAME
US = 1000000
DAY = 86400
PV_DEFAULT = 1024 * 1024


class Reactor(Clock):
    def __init__(self):
        Clock.__init__(self)
        self.starting, self.stopping = [], []

    def callWhenRunning(self, f, *a, **kw):
        self.starting.append(lambda: f(*a, **kw))

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        if event == "shutdown":
            self.stopping.append(lambda: f(*a, **kw))


class Config:
    """What Tahoe-LAFS read from a node directory."""

    def __init__(self, root):
        self.root = root
        os.makedirs(os.path.join(root, "private"), exist_ok=True)
        self.private = {"api_auth_token": web.TOKEN}
        self.values = {
            (CLIENT, "allowed-public-keys"): web.KEY,
            (CLIENT, "redeemer"): "non",
            ("storage", "enabled"): False,
        }

    missing = object()

    def get_config(self, section, option, default=missing, boolean=False):
        v = self.values.get((section, option), default)
        if v is self.missing:
            raise MissingConfigEntry("%s %s" % (section, option))
        return v

    def get_private_config(self, name, default=missing):
        v = self.private.get(name, default)
        if v is self.missing:
            raise MissingConfigEntry(name)
        return v

    def get_config_path(self, *a):
        return os.path.join(self.root, *a)

    def get_private_path(self, *a):
        return os.path.join(self.root, "private", *a)


class Nodes:
    """A process with the plugin, and node directories."""

    def __init__(self, ctx, sqlite=False):
        self.ctx = ctx
        self.sqlite = sqlite or ctx.concrete
        self.dir = tempfile.mkdtemp(prefix="c31-")
        self.patcher = Patcher(ctx)
        if not ctx.concrete:
            ctx.opaque_text = True
            self.patcher.builtins()
            web.install_web(ctx, self.patcher)
            timesym.install(self.patcher)
        times = iter(range(1 << 30))
        self.patcher.replace(M.aware_now, lambda: NOW.replace(microsecond=next(times)))
        self.conns = []
        ctx.cleanup(self.close)
        self.reactor = Reactor()
        self.asked = []
        nodes = self

        def get(controller, message, count):
            nodes.asked.append(count)
            raise RuntimeError("asked for passes")

        self.patcher.set(SpendingController, "get", get)
        self.plugin = _plugin.ZKAPAuthorizer(
            NAME, self.reactor, lambda reactor, config: None, self.connect
        )

    def close(self):
        for c in self.conns:
            try:
                c.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def connect(self, path, **kw):
        if not self.sqlite:
            c = sqlsym.Connection()
        else:
            c = sqlite3.connect(path, factory=FaultyConnection, **kw)
            c.execute("PRAGMA synchronous = OFF")
        self.conns.append(c)
        c.opened = path
        return c

    def config(self, name="node"):
        return Config(os.path.join(self.dir, name))


def option(ctx, config, section, name, lo, hi):
    """An option that may be there, and its number; None when it is not."""
    if not ctx.flag("has " + name):
        return None
    n = ctx.int(name, lo, hi)
    config.values[(section, name)] = number_text(n)
    return n


def h_client(ctx, shares):
    """Everything the client side shows and does follows the same numbers."""
    nodes = Nodes(ctx)
    config = nodes.config()
    pv = option(ctx, config, CLIENT, "pass-value", 1, 1 << 40)
    least = option(ctx, config, CLIENT, "lease.min-time-remaining", 0, 40 * DAY)
    option(ctx, config, CLIENT, "lease.crawl-interval.mean", 1, 400 * DAY)
    option(ctx, config, CLIENT, "lease.crawl-interval.range", 1, 400 * DAY)
    enc = ctx.pick("encoding", shares)
    k, n = enc or (3, 10)
    if enc is not None:
        config.values[("client", "shares.needed")] = "%d" % k
        config.values[("client", "shares.total")] = "%d" % n
    if pv is None:
        pv = PV_DEFAULT
        ctx.cover("default value")
    else:
        ctx.cover("configured value")
    least = 0 if least is None else least
    root = nodes.plugin.get_client_resource(config)

    # what the user interface quotes
    size = ctx.int("size", 0, 1 << 40)
    r = web.Request(
        b"POST",
        [b"calculate-price"],
        web.body_of(ctx, {"version": 1, "sizes": [size]}),
        [web.AUTH, (b"content-type", b"application/json")],
    )
    e = web.serve(root, r)
    ctx.check(e is None and r.status == 200, "a price is quoted", (repr(e), r.status))
    answer = r.answer()
    share = ceil_div(size, k)
    ctx.check(answer["price"] == n * ceil_div(share, pv), "the price quoted follows the configuration", answer["price"])
    ctx.check(answer["period"] == 31 * DAY - least, "the period quoted is what a lease is sure to last", answer["period"])

    # what an upload of it is paid with
    client = nodes.plugin.get_storage_client(config, {"ristretto-issuer-root-url": "x"}, lambda: Ref(None))
    outcome(client.allocate_buckets(SI, RENEW, CANCEL, set(range(n)), share, None))
    ctx.check(
        len(nodes.asked) == (1 if nodes.asked else 0),
        "an upload asks for passes once",
    )
    paid = nodes.asked[0] if nodes.asked else 0
    ctx.check(paid == answer["price"], "an upload is paid with the passes quoted", paid)

    # what maintenance of it is recorded to cost
    ctx.check(root.store is nodes.plugin._get_store(config), "the user interface shows the node's own wallet")
    m = root.store.start_lease_maintenance()
    m.observe([share])
    m.finish()
    act = root.store.get_latest_lease_maintenance_activity()
    ctx.check(act.passes_required == ceil_div(share, pv), "maintenance is accounted with the same value")
    ctx.observe("price", answer["price"])
    ctx.observe("period", answer["period"])


def h_tokens(ctx):
    """A voucher is redeemed for the configured number of tokens, spendable
    when the issuer's key is one of the allowed ones."""
    nodes = Nodes(ctx, sqlite=True)
    config = nodes.config()
    listed = ctx.pick("allowed", [["key-a"], ["key-a", "key-b"], ["key-b", "key-a", "key-c"], ["key-b"], ["key-aa"]])
    before = ctx.pick("before", ["", " ", "\n"])
    after = ctx.pick("after", ["", " ", "\n"])
    config.values[(CLIENT, "allowed-public-keys")] = before + ",".join(listed) + after
    count = 16
    if listed == ["key-a"] and not before:
        count = ctx.pick("count", [None, 16, 40])
    if count is not None:
        config.values[(CLIENT, "default-token-count")] = "%d" % count
    config.values[(CLIENT, "redeemer")] = "dummy"
    config.values[(CLIENT, "issuer-public-key")] = "key-a"
    root = nodes.plugin.get_client_resource(config)
    voucher = base64.urlsafe_b64encode(b"v" * 32)
    r = web.Request(
        b"PUT",
        [b"voucher"],
        web.body_of(ctx, {"voucher": voucher.decode("ascii")}),
        [web.AUTH, (b"content-type", b"application/json")],
    )
    e = web.serve(root, r)
    ctx.check(e is None and r.status == 200, "the voucher is accepted", (repr(e), r.status))
    v = root.store.get(voucher)
    ctx.check(v.expected_tokens == (count or 2 ** 15), "the configured number of tokens is expected", v.expected_tokens)
    ctx.check(v.state.__class__.__name__ == "Redeemed", "the voucher is redeemed")
    free = len(root.store.get_unblinded_tokens(root.store.count_unblinded_tokens()))
    allowed = "key-a" in listed
    ctx.cover("allowed" if allowed else "not allowed")
    ctx.check(free == (v.expected_tokens if allowed else 0), "tokens are spendable exactly when their issuer is allowed", free)


def h_server(ctx):
    """The server prices by its configured value, announces its own key and
    accepts the passes made with it."""
    w = World(ctx, 1)
    nodes_dir = tempfile.mkdtemp(prefix="c31-")
    ctx.cleanup(lambda: shutil.rmtree(nodes_dir, ignore_errors=True))
    reactor = Reactor()
    plugin = _plugin.ZKAPAuthorizer(NAME, reactor, lambda *a: None)
    good, _ = keys()
    path = os.path.join(nodes_dir, "signing.key")
    with open(path, "wb") as f:
        f.write(
            ctx.pick("before", [b"", b" \n"])
            + good.encode_base64()
            + ctx.pick("after", [b"", b"\n", b" \t\r\n"])
        )
    url = ctx.pick("url", ["https://issuer.example/", "http://x/v1/"])
    configuration = {"ristretto-issuer-root-url": url, "ristretto-signing-key-path": path}
    pv = PV_DEFAULT
    if ctx.flag("has pass-value"):
        pv = ctx.int("pass-value", 1, 1 << 40)
        configuration["pass-value"] = ctx.pick("as", [number_text(pv), pv])
        ctx.cover("configured value")
    else:
        ctx.cover("default value")
    made = []

    def anonymous():
        made.append(w.backend)
        return w.backend

    kind, got = outcome(plugin.get_storage_server(configuration, anonymous))
    ctx.check(kind == "value", "a server is made", repr(got))
    ctx.check(len(made) == 1, "over one anonymous storage server")
    public = PublicKey.from_signing_key(good).encode_base64()
    ctx.check(
        got.announcement == {"ristretto-issuer-root-url": url, "ristretto-public-keys": [public]},
        "the issuer and the key of the passes it takes are announced",
        got.announcement,
    )
    server = got.storage_server
    size = ctx.int("size", 1, 1 << 45)
    nshares = ctx.choice("shares", 3)
    price = nshares * ceil_div(size, pv)
    from _zkapauthorizer.storage_common import allocate_buckets_message

    enc = [make_pass(allocate_buckets_message(SI), i)[0] for i in range(2)]
    try:
        server.remote_allocate_buckets(enc, SI, RENEW, CANCEL, set(range(nshares)), size, FakeCanary())
    except MorePassesRequired as e:
        ctx.cover("refused")
        ctx.check(price > 2, "the passes are too few for the configured price")
        ctx.check(e.required_count == price, "the price follows the configuration", e.required_count)
        ctx.check(e.valid_count == 2 and not e.signature_check_failed, "passes made with the configured key are valid")
        ctx.check(not w.calls, "nothing is stored unpaid")
    else:
        ctx.cover("accepted")
        ctx.check(price <= 2, "an upload is accepted for its price")
        ctx.check([c[0] for c in w.calls] == ["allocate_buckets"], "the anonymous server does the work")
    ctx.observe("price", price)


def h_metrics(ctx, steps):
    """Metrics are written on schedule when asked for, and a write that fails
    changes nothing else."""
    patcher = Patcher(ctx)
    d = tempfile.mkdtemp(prefix="c31-")
    ctx.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    writes = []
    broken = [ctx.flag("fails%d" % i) for i in range(steps + 1)]

    def write(path, registry, *a, **kw):
        i = len(writes)
        writes.append((path, registry, reactor.seconds()))
        if broken[min(i, steps)]:
            raise OSError("disk full")

    import prometheus_client

    patcher.replace(prometheus_client.write_to_textfile, write)
    reactor = Reactor()
    plugin = _plugin.ZKAPAuthorizer(NAME, reactor, lambda *a: None)
    good, _ = keys()
    key = os.path.join(d, "signing.key")
    with open(key, "wb") as f:
        f.write(good.encode_base64())
    configuration = {"ristretto-issuer-root-url": "https://x/", "ristretto-signing-key-path": key}
    every = ctx.pick("interval", [None, 1, 60])
    target = os.path.join(d, *ctx.pick("path", [("m.prom",), ("sub", "dir", "m.prom")]))
    if every is not None:
        configuration["prometheus-metrics-interval"] = ctx.pick("as", ["%d" % every, every])
    has_path = ctx.flag("has path")
    if has_path:
        configuration["prometheus-metrics-path"] = target

    class Backend(FakeBackend):
        def __init__(self):
            self.sharedir = d
            self.my_nodeid = b"n" * 20

    kind, got = outcome(plugin.get_storage_server(configuration, Backend))
    ctx.check(kind == "value", "a server is made", repr(got))
    wanted = every is not None and has_path
    for i in range(steps):
        reactor.advance(every or 60)
    ctx.check(bool(writes) == wanted, "metrics are written exactly when an interval and a file are given")
    if wanted:
        ctx.cover("written")
        ctx.check([x[2] for x in writes] == [i * every for i in range(steps + 1)], "they are written once per interval", [x[2] for x in writes])
        ctx.check({x[0] for x in writes} == {target}, "to the file given")
        ctx.check(os.path.isdir(os.path.dirname(target)), "in a directory that is made if needed")
        # what is written is what this server counts
        names = {m.name for m in writes[-1][1].collect()}
        ctx.check(any("spending" in x for x in names), "the server's own counts are written", sorted(names))
    else:
        ctx.cover("not wanted")


# -- the services of a client node -------------------------------------------------


class Node(MultiService):
    def __init__(self, config, servers):
        MultiService.__init__(self)
        self.config = config
        self.broker = maintenance.Broker(servers)
        self._secret_holder = maintenance.Secrets()
        self.made = []

    def get_storage_broker(self):
        return self.broker

    def create_node_from_uri(self, cap, *a, **kw):
        self.made.append(cap)
        return maintenance.File(SI)

    def attach(self):
        _Client.init_storage(self, [])


def prepare(ctx, nodes):
    """Let the hook of the plugin see this process."""
    nodes.reactor = reactor = maintenance_common.Reactor(ctx, 2 * 10 ** 15)
    nodes.patcher.set(twisted.internet, "reactor", reactor)
    nodes.patcher.replace(_plugin.storage_server_plugin, nodes.plugin)
    nodes.random = maintenance_common.Random(ctx)
    nodes.patcher.proxy_module(random, Random=lambda *a: nodes.random)
    nodes.patcher.replace(random.Random, lambda *a: nodes.random)
    return reactor


def h_maintenance(ctx):
    """The maintenance a node does follows its configuration."""
    nodes = Nodes(ctx)
    reactor = prepare(ctx, nodes)
    config = nodes.config()
    config.values[("client", "storage.plugins")] = NAME
    mean = option(ctx, config, CLIENT, "lease.crawl-interval.mean", 0, 400 * DAY)
    spread = option(ctx, config, CLIENT, "lease.crawl-interval.range", 0, 800 * DAY)
    least = option(ctx, config, CLIENT, "lease.min-time-remaining", 0, 40 * DAY)
    mean, spread, least = [
        (d if x is None else x) * US for x, d in ((mean, 26 * DAY), (spread, 4 * DAY), (least, 0))
    ]
    ctx.assume(spread <= 2 * mean)
    stat = ShareStat(ctx.int("size", 0, 1 << 40), ctx.int("expires", 0, 2 ** 32 - 1))
    server = maintenance.Server(ctx, 0, {SI: {3: stat}})
    node = Node(config, [server])
    node.attach()
    node.startService()
    for run in range(2):
        (call,) = reactor.active()
        lo, hi, drawn = nodes.random.bounds[-1]
        ctx.check(And(lo == mean - spread // 2, hi == mean + spread // 2), "runs are spaced as configured")
        has = ctx.flag("rootcap%d" % run)
        if has:
            config.private["rootcap"] = "URI:DIR2:root"
        else:
            config.private.pop("rootcap", None)
        server.asked, server.renewed = [], []
        call.fire()
        if not has:
            ctx.cover("nothing to maintain")
            ctx.check(not server.asked and not server.renewed, "without a root nothing is maintained")
            ctx.check(len(reactor.active()) == 1, "the next run is scheduled all the same")
            continue
        ctx.check(node.made[-1] == b"URI:DIR2:root", "the crawl starts at the configured root")
        ctx.check(server.asked == [SI], "what is reachable from the root is looked after", server.asked)
        due = stat.lease_expiration * US - reactor.now < least
        ctx.cover("renewed" if server.renewed else "left alone")
        ctx.check(due if server.renewed else Not(due), "leases are renewed when the configured time remains")
        act = nodes.plugin._get_store(config).get_latest_lease_maintenance_activity()
        ctx.check(act is not None and act.passes_required == ceil_div(stat.size, PV_DEFAULT), "the run is on record in the node's wallet")
    p = config.get_private_path("last-lease-maintenance-run")
    ctx.check(os.path.exists(p), "the run is remembered in the node's directory")


def h_enabled(ctx, before, after):
    """The services run exactly on nodes whose list of plugins names ours."""
    nodes = Nodes(ctx)
    prepare(ctx, nodes)
    if not ctx.concrete:
        symtext.install(nodes.patcher)
    config = nodes.config()
    first = symtext.text(ctx, "before", ctx.choice("n before", before + 1), lo=32, hi=46)
    last = symtext.text(ctx, "after", ctx.choice("n after", after + 1), lo=32, hi=46)
    text = first + ctx.pick("name", [NAME, NAME[:-1], ""]) + last
    if ctx.flag("given"):
        config.values[("client", "storage.plugins")] = text
        ours = listed(chars(text))
    else:
        ours = False
    node = Node(config, [])
    node.attach()
    got = [s.name for s in node]
    on = bool(got)
    ctx.cover("on" if on else "off")
    ctx.check(got in ([], [_plugin.MAINTENANCE_SERVICE_NAME]), "nothing else is attached", got)
    ctx.check(ours if on else Not(ours), "the services run exactly where the plugin is enabled", on)


def chars(s):
    return [c if isinstance(c, int) else ord(c) for c in (s.items if hasattr(s, "items") else s)]


def blank(items):
    """Nothing but space up to the nearest comma (from the left)."""
    ok = True
    for c in reversed(items):
        ok = Or(c == 44, And(ok, c == 32))
    return ok


def listed(text):
    """Our name is somewhere between commas, but for space around it."""
    n = len(NAME)
    return Or(
        *[
            And(
                *[c == ord(x) for c, x in zip(text[p : p + n], NAME)],
                blank(text[:p][::-1]),
                blank(text[p + n :]),
            )
            for p in range(len(text) - n + 1)
        ]
    )


def h_attach(ctx):
    """A node never gets a second service, and starts even if the first cannot
    be made."""
    nodes = Nodes(ctx)
    reactor = prepare(ctx, nodes)
    config = nodes.config()
    config.values[("client", "storage.plugins")] = NAME
    bad = ctx.pick("interval", ["100000", "soon", ""])
    config.values[(CLIENT, "lease.crawl-interval.mean")] = bad
    node = Node(config, [])
    other = None
    if ctx.flag("already"):
        other = Service()
        other.setName(_plugin.MAINTENANCE_SERVICE_NAME)
        other.setServiceParent(node)
    for i in range(1 + ctx.choice("again", 2)):
        node.attach()
    have = list(node)
    if other is not None:
        ctx.cover("already there")
        ctx.check(have == [other], "a service that is there stays", have)
    elif bad == "100000":
        ctx.cover("attached")
        ctx.check(len(have) == 1, "one service is attached", have)
        node.startService()
        ctx.check(len(reactor.active()) == 1, "one run is scheduled", reactor.active())
    else:
        ctx.cover("not made")
        ctx.check(have == [], "a node whose service cannot be made goes without", have)


def h_issuer(ctx, n):
    """Only storage servers announcing the configured issuer are dealt with."""
    nodes = Nodes(ctx)
    if not ctx.concrete:
        symtext.install(nodes.patcher)
    config = nodes.config()
    config.values[(CLIENT, "redeemer")] = "ristretto"
    if ctx.flag("named"):
        config.values[(CLIENT, "redeemer")] = "ristretto"
    else:
        del config.values[(CLIENT, "redeemer")]
    url = "https://issuer.example/a"
    config.values[(CLIENT, "ristretto-issuer-root-url")] = url
    cut = ctx.choice("cut", 3)
    theirs = url[: len(url) - cut] + symtext.text(ctx, "end", ctx.choice("n end", n + 1), lo=33, hi=0x7E)
    same = len(chars(theirs)) == len(url) and And(*[a == ord(b) for a, b in zip(chars(theirs), url)])
    from _zkapauthorizer.controller import IssuerConfigurationMismatch

    try:
        client = nodes.plugin.get_storage_client(config, {"ristretto-issuer-root-url": theirs}, lambda: Ref(None))
    except IssuerConfigurationMismatch:
        ctx.cover("refused")
        ctx.check(Not(same), "a server of the configured issuer is used")
    else:
        ctx.cover("used")
        ctx.check(same, "a server of another issuer is not used")
        ctx.check(client is not None, "a client is made")


def h_stores(ctx, steps):
    """Each node has its one wallet, in its own directory."""
    nodes = Nodes(ctx)
    configs = [nodes.config("a"), nodes.config("b")]
    seen = {}
    keep = []
    for i in range(steps):
        which = ctx.choice("node%d" % i, 2)
        # a configuration object read again is the same node
        config = Config(configs[which].root) if ctx.flag("again%d" % i) else configs[which]
        how = ctx.pick("use%d" % i, ["resource", "client"])
        if how == "resource":
            root = nodes.plugin.get_client_resource(config)
            keep.append(root)
            store = root.store
        else:
            keep.append(nodes.plugin.get_storage_client(config, None, lambda: Ref(None)))
            store = nodes.plugin._get_store(config)
        keep.append(store)
        ctx.check(seen.setdefault(which, store) is store, "a node has one wallet")
        ctx.check(nodes.plugin._get_store(config) is store, "whatever uses it")
    ctx.check(len(set(map(id, seen.values()))) == len(seen), "wallets of nodes are apart")
    ctx.check(len(nodes.conns) == len(seen), "one database is opened per node", len(nodes.conns))
    paths = sorted(c.opened for c in nodes.conns)
    want = sorted(configs[w].get_private_path("privatestorageio-zkapauthz-v1.sqlite3") for w in seen)
    ctx.check(paths == want, "in the node's private directory", paths)
    ctx.cover("two" if len(seen) == 2 else "one")


def h_durations(ctx):
    """Maintenance settings survive being written and read."""
    nodes = Nodes(ctx)
    if not ctx.concrete:
        numtext.install(nodes.patcher)
    vals = [ctx.int("d%d" % i, 0, 10 ** 9) for i in range(3)]
    d = lambda s: timesym.delta_of(ctx, s * US)
    config = L.LeaseMaintenanceConfig(d(vals[0]), d(vals[1]), d(vals[2]))
    written = L.lease_maintenance_config_to_dict(config)
    node = nodes.config()
    for k, v in written.items():
        node.values[(CLIENT, k)] = v
    for back in (L.lease_maintenance_config_from_dict(written), L.LeaseMaintenanceConfig.from_node_config(node)):
        for a, s in zip((back.crawl_interval_mean, back.crawl_interval_range, back.min_lease_remaining), vals):
            ctx.check(timesym.us(a) == s * US, "a duration is read as it was written")
    ctx.cover("read")


ENC = [None, (1, 1), (3, 10), (7, 12)]
HARNESSES = [
    H(h_client, "client", {"shares": ENC}, "pass value 1..2^40, lease settings and the size of one file up to 2^40, all symbolic, each option present or not; encodings default, 1/1, 3/10, 7/12", ["default value", "configured value"]),
    H(h_tokens, "tokens", {}, "default-token-count absent, 16 or 40; lists of up to 3 allowed keys, space around the list", ["allowed", "not allowed"]),
    H(h_server, "server", {}, "pass value 1..2^40 and upload size 1..2^45 symbolic, 0-2 shares, 2 valid passes; space around the signing key", ["default value", "configured value", "refused", "accepted"]),
    H(h_metrics, "metrics", {"steps": 3}, "4 writes, any of them failing; interval absent, 1 or 60 s; path absent, plain or in missing directories", ["written", "not wanted"]),
    H(h_maintenance, "maintenance", {}, "mean up to 400 d, range up to 800 d (at most twice the mean), least time remaining up to 40 d, one share of any size and expiration; two runs, each with or without a root", ["renewed", "left alone", "nothing to maintain"]),
    H(h_enabled, "enabled", {"before": 1, "after": 1}, "up to 1 characters from space to full stop on each side of the plugin's name, a shorter name, or no name", ["on", "off"]),
    H(h_enabled, "enabled", {"before": 2, "after": 0}, "up to 2 characters from space to full stop before the plugin's name, a shorter name, or no name", ["on", "off"]),
    H(h_enabled, "enabled", {"before": 0, "after": 2}, "up to 2 characters from space to full stop after the plugin's name, a shorter name, or no name", ["on", "off"]),
    H(h_attach, "attach", {}, "a service present or not, settings well-formed or not, attached once or twice", ["already there", "attached", "not made"]),
    H(h_issuer, "issuer", {"n": 3}, "announced URLs: the configured one less up to 2 characters followed by up to 3 arbitrary printable ones", ["used", "refused"]),
    H(h_stores, "stores", {"steps": 3}, "3 uses of 2 nodes", ["one", "two"]),
    H(h_durations, "durations", {}, "three durations of up to 10^9 s", ["read"]),
    H(h_enabled, "enabled", {"before": 2, "after": 2}, "up to 2 characters from space to full stop on each side", ["on", "off"], tiers=("thorough",), budget_s=800),
    H(h_stores, "stores-5", {"steps": 5}, "5 uses of 2 nodes", ["one", "two"], tiers=("thorough",)),
    H(h_metrics, "metrics-8", {"steps": 8}, "9 writes", ["written", "not wanted"], tiers=("thorough",)),
]
