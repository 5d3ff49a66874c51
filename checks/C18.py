"""Recovery rebuilds exactly the replicated state."""
from symx.runner import H
from symx.values import *

from _zkapauthorizer import recover as V
from _zkapauthorizer import resource as S
from checks.replica_common import *
from checks.wallet_common import *
from datetime import timedelta
from _zkapauthorizer.model import RandomToken, UnblindedToken

PROPERTY = "C18"
TITLE = "recovery rebuilds exactly the replicated state"
ASSUMPTIONS = [
    "each recorded change is in some stream unless the snapshot contains it (C17)",
    "what CBOR encodes it decodes (C27)",
    "an event stream begins no earlier than the ones recorded before it (events are only ever pruned)",
    "the replica is of the schema version of the software that recovers it",
]


class Client:
    """A websocket client that watches a recovery."""

    def __init__(self, factory):
        self.p = factory.buildProtocol(None)
        self.seen = []
        self.closed = []
        self.p.sendMessage = lambda payload, isBinary=False: self.seen.append(json.loads(payload))
        self.p.sendClose = lambda code=None, reason=None: self.closed.append(code)

    def ask(self, cap):
        self.p.onMessage(json.dumps({"recovery-capability": danger_real_capability_string(cap)}).encode(), False)


import cbor2
import json  # noqa: E402
from tahoe_capabilities import danger_real_capability_string  # noqa: E402


class Target:
    """An empty wallet, and the machinery to recover into it."""

    def __init__(self, w):
        ctx = self.ctx = w.ctx
        self.grid = w.grid
        if ctx.concrete:
            self.conn = connect()
            ctx.cleanup(self.conn.close)
        else:
            self.conn = sqlsym.Connection()
        self.wrapped = R.with_replication(self.conn, False)
        self.store = M.VoucherStore.from_connection(1000, lambda: NOW, self.wrapped)
        self.factory = S.RecoverFactory(self.store, V.get_tahoe_lafs_downloader(w.grid))

    def recover(self):
        c = Client(self.factory)
        c.ask(DIRCAP.reader)
        return c

    def state(self):
        return capture_real(self.conn) if self.ctx.concrete else self.conn.db.capture()


STAGES = ["started", "inspect_replica", "downloading", "succeeded"]


def h_overlap(ctx, changes, streams, at, base):
    ctx.opaque_text = True
    w = World(ctx)
    if base:
        # as many changes were recorded, and are gone, already
        w.conn.execute("INSERT INTO sqlite_sequence ([name], [seq]) VALUES ('event-stream', ?)", (base,))
        w.conn.commit()
    w.wrapped.enable_replication()
    # recorded as the service would, but never uploaded
    service = R.replication_service(w.wrapped, w.grid.replica(), Policy(w))
    w.wrapped.add_mutation_observer(service.observed_event)
    expect = w.digest
    snap = None
    if at == 0:
        w.grid.put("snapshot", w.store.snapshot())
    for i in range(changes):
        w.change(True)
        if i + 1 == at:
            if ctx.flag("pruned"):
                # the events the snapshot contains are gone
                R.prune_events_to(w.conn, base + at)
            w.grid.put("snapshot", w.store.snapshot())
            expect = w.digest
    # streams, each of any contiguous part, together all since the snapshot
    n = ctx.choice("streams", streams + 1)
    spans = []
    for i in range(n):
        lo = ctx.choice("lo%d" % i, changes)
        hi = 1 + ctx.choice("hi%d" % i, changes)
        if lo >= hi or any(hi == h for _, h in spans):
            ctx.stop()
        spans.append((lo, hi))
    if any(h1 < h2 and l1 > l2 for l1, h1 in spans for l2, h2 in spans):
        ctx.stop()  # what was pruned does not come back
    top = max([at] + [hi for _, hi in spans])
    if not all(any(lo < s <= hi for lo, hi in spans) for s in range(at + 1, top + 1)):
        ctx.stop()
    xs = [e for e in all_events(w)]
    for lo, hi in spans:
        part = [R.Change(base + s, q, a, True) for s, q, a in xs if lo < s <= hi]
        w.grid.put("event-stream-%d" % (base + hi), R.EventStream(changes=part).to_bytes().read())
    value = 1
    for i in range(top):
        value = value * 3 + w.xs[i]
    t = Target(w)
    c = t.recover()
    ctx.cover("recovered")
    if n > 1:
        ctx.cover("several streams")
    ctx.check([m["stage"] for m in c.seen] == STAGES, "the recovery succeeds", c.seen)
    ctx.check(w.value(t.conn) == value, "every change once, in order")
    ctx.check(len(c.closed) == 1, "the connection is closed")


def all_events(w):
    for i in range(w.changes):
        yield i + 1, w.SQL, (w.xs[i],)



class Store:
    """A wallet in some state with a few things in it, whose changes are
    recorded."""

    def __init__(self, ctx):
        self.ctx = ctx
        w = self.w = World(ctx)
        self.v = [voucher_name(i) for i in range(3)]
        self.time = 0
        vouchers = [ctx.bool("voucher%d" % i) for i in range(2)]
        for i in range(2):
            Wallet.put(
                w, "vouchers", vouchers[i], number=self.v[i].decode(), created=EARLIER,
                state="pending", counter=ctx.int("counter%d" % i, 0, 3), expected_tokens=ctx.int("expected%d" % i, 1, 1 << 30),
                sequestered_count=ctx.int("sequestered%d" % i, 0, 1 << 30), token_count=ctx.int("count%d" % i, 0, 1 << 30),
            )
        self.tokens = [token_name(i) for i in range(3)]
        for i in range(3):
            group = ctx.bool("token%d" % i)
            Wallet.put(w, "redemption-groups", group, rowid=i + 1, voucher=self.v[i % 2].decode(), spendable=ctx.int("spendable%d" % i, 0, 1), public_key=PUBLIC_KEY)
            Wallet.put(w, "unblinded-tokens", group, token=self.tokens[i].decode(), redemption_group=i + 1)
            ctx.assume(Implies(group, vouchers[i % 2]))
        material = ctx.bool("material")
        ctx.assume(Implies(material, vouchers[0]))
        Wallet.put(w, "tokens", material, text=token_name(100).decode(), voucher=self.v[0].decode(), counter=ctx.int("material step", 0, 3))
        w.conn.commit()
        self.open()

    def open(self):
        w = self.w
        w.conn.rollback()
        for name in ("in-use", "to-discard", "to-reset"):
            w.conn.execute("DROP TABLE [%s]" % name)
        w.conn.commit()
        w.wrapped = R.with_replication(w.conn, True)
        w.store = M.VoucherStore.from_connection(1000, self.now, w.wrapped)
        self.service = R.replication_service(w.wrapped, w.grid.replica(), Policy(w))
        w.keep.append(self.service)
        w.wrapped.add_mutation_observer(self.service.observed_event)
        self.maintenance = None

    def now(self):
        self.time += 1
        return NOW + timedelta(seconds=self.time)

    def act(self, step, what):
        """One operation of the wallet, or of the node."""
        ctx, store = self.ctx, self.w.store
        if what == "restart":
            self.open()
        elif what == "add":
            i = ctx.choice("which%d" % step, 3)
            names = [RandomToken(token_name(1000 + 10 * step + k)) for k in range(2)]
            store.add(self.v[i], ctx.int("expect%d" % step, 1, 1 << 30), ctx.int("step%d" % step, 0, 3), lambda: names)
        elif what == "insert":
            i = ctx.choice("which%d" % step, 2)
            names = [UnblindedToken(token_name(2000 + 10 * step + k)) for k in range(2)]
            store.insert_unblinded_tokens_for_voucher(self.v[i], "key%d" % step, names, ctx.flag("completed%d" % step), ctx.flag("spendable at %d" % step))
        elif what == "double spend":
            store.mark_voucher_double_spent(self.v[ctx.choice("which%d" % step, 2)])
        elif what == "get":
            store.get_unblinded_tokens(1 + ctx.choice("number%d" % step, 2))
        elif what == "maintenance":
            m = self.maintenance
            if m is None:
                self.maintenance = store.start_lease_maintenance()
            elif ctx.flag("observe%d" % step):
                m.observe([ctx.int("size%d" % step, 0, 1 << 40)])
            else:
                m.finish()
                self.maintenance = None
        else:
            but = ctx.choice("but%d" % step, 3)
            ts = [UnblindedToken(t) for i, t in enumerate(self.tokens) if i != but]
            if what == "discard":
                store.discard_unblinded_tokens(ts)
            elif what == "invalidate":
                store.invalidate_unblinded_tokens("no good", ts)
            else:
                store.reset_unblinded_tokens(ts)


OPS = ["add", "insert", "double spend", "get", "discard", "invalidate", "reset", "maintenance", "restart"]
EARLIER = "2029-01-02 03:04:05+00:00"
LOCAL = ("event-stream", "sqlite_sequence")


def h_wallet(ctx, first, steps):
    ctx.opaque_text = True
    s = Store(ctx)
    w = s.w
    at = ctx.choice("snapshot at", steps + 1)
    for step in range(steps + 1):
        if step == at:
            w.grid.put("snapshot", w.store.snapshot())
        if step == steps:
            break
        what = OPS[first if step == 0 else ctx.choice("op%d" % step, len(OPS))]
        ctx.cover(what)
        try:
            s.act(step, what)
        except (ValueError, M.NotEnoughTokens, sqlite3.IntegrityError):
            ctx.cover("refused")
    # everything recorded is in one stream
    events = [R.Change(q, stmt, args, True) for q, stmt, args in w.local_events()]
    if events:
        ctx.cover("changes were recorded")
        w.grid.put("event-stream-%d" % events[-1].sequence, R.EventStream(changes=events).to_bytes().read())
    before = w.conn.db.capture() if not ctx.concrete else capture_real(w.conn)
    t = Target(w)
    c = t.recover()
    ctx.check([m["stage"] for m in c.seen] == STAGES, "the recovery succeeds", c.seen)
    after = t.state()
    names = sorted(n for n, x in before.items() if not x.temp)
    ctx.check(names == sorted(n for n, x in after.items() if not x.temp), "the same tables")
    for name in names:
        if name not in LOCAL:
            ctx.check(mkbool(same_table(before[name], after[name])), "the table is as it was: " + name)
    for name in ("in-use", "to-discard", "to-reset"):
        ctx.check(mkbool(NOT(OR(*[r.g for r in after[name].rows]))), "nothing is in use: " + name)


FAILURES = ["listing", "first download", "second download", "no snapshot", "snapshot version", "snapshot statements", "stream version", "statement"]


def h_failure(ctx, kind, limit):
    ctx.opaque_text = True
    w = World(ctx)
    w.wrapped.enable_replication()
    service = R.replication_service(w.wrapped, w.grid.replica(), Policy(w))
    w.wrapped.add_mutation_observer(service.observed_event)
    w.grid.put("snapshot", w.store.snapshot())
    for i in range(2):
        w.change(True)
    changes = [R.Change(s, q, a, True) for s, q, a in all_events(w)]
    w.grid.put("event-stream-2", R.EventStream(changes=changes).to_bytes().read())
    t = Target(w)
    before = t.state()
    failed = "download_failed"
    encode = cbor2.dumps
    if kind == "listing":
        w.grid.fail_list = True
    elif kind.endswith("download"):
        w.grid.fail_download = 1 if kind.startswith("first") else 2
    elif kind == "no snapshot":
        del w.grid.entries["snapshot"]
    else:
        failed = "import_failed"
        if kind == "snapshot version":
            w.grid.put("snapshot", encode({"version": 2, "statements": []}))
        elif kind == "snapshot statements":
            good = w.decode(w.grid.files[w.grid.entries["snapshot"]])["statements"]
            n = ctx.choice("good statements", 4)
            w.grid.put("snapshot", encode({"version": 1, "statements": good[:n] + [7]}))
        elif kind == "stream version":
            w.grid.put("event-stream-2", encode({"version": 7, "events": []}))
        else:
            Wallet.fail_at(t, ctx.choice("failing statement", limit))
    c = t.recover()
    Wallet.no_faults(t)
    stages = [m["stage"] for m in c.seen]
    if stages == STAGES:
        ctx.check(kind == "statement", "a failure is reported", kind)
        ctx.check(t.left >= 0, "a failure is reported", t.left)
        ctx.cover("more statements than that")
        return
    ctx.cover("failed")
    if kind == "statement" and t.left < 0 and stages == ["import_failed"]:
        ctx.cover("failed at once")
    else:
        ctx.check(stages == STAGES[: stages.index(failed)] + [failed] if failed in stages else False, "the failure is reported", stages)
    ctx.check(type(c.seen[-1]["failure-reason"]) is str, "with its reason", c.seen[-1])
    ctx.check(all(m["failure-reason"] is None for m in c.seen[:-1]), "only the last update has a failure", c.seen)
    ctx.check(len(c.closed) == 1, "the connection is closed")
    ctx.check(mkbool(same_state(before, t.state())), "the database is as before")
    ctx.check(t.store.list() == [], "and can be used")


def h_again(ctx, at):
    """The wallet recovered into has a replica, too, and that is recovered."""
    ctx.opaque_text = True
    w = World(ctx)
    w.wrapped.enable_replication()
    service = R.replication_service(w.wrapped, w.grid.replica(), Policy(w))
    w.wrapped.add_mutation_observer(service.observed_event)
    w.store.add(voucher_name(0), ctx.int("expected", 1, 1 << 30), 0, lambda: [RandomToken(token_name(1))])
    total = 2
    for i in range(total + 1):
        if i == at:
            w.grid.put("snapshot", w.store.snapshot())
            if ctx.flag("pruned"):
                R.prune_events_to(w.conn, 1 << 40)
        if i < total:
            w.change(True)
    changes = [R.Change(q, stmt, args, True) for q, stmt, args in w.local_events()]
    if changes:
        w.grid.put("event-stream-%d" % changes[-1].sequence, R.EventStream(changes=changes).to_bytes().read())
    # the second one is replicated already
    t = Target(w)
    t.conn.execute(CREATE)
    t.conn.execute("INSERT INTO [history] VALUES (1, 7)")
    base = ctx.pick("changes before", [0, 1, 5, 100])
    if base:
        t.conn.execute("INSERT INTO sqlite_sequence ([name], [seq]) VALUES ('event-stream', ?)", (base,))
    t.conn.commit()
    t.wrapped.enable_replication()
    service = R.replication_service(t.wrapped, w.grid.replica(), Policy(w))
    t.wrapped.add_mutation_observer(service.observed_event)
    grid2 = Grid()
    grid2.put("snapshot", t.store.snapshot())
    failures = ctx.choice("failures", 2)
    if failures:
        w.grid.fail_list = ctx.flag("no listing")
        keep = w.grid.files[w.grid.entries["snapshot"]]
        if not w.grid.fail_list:
            w.grid.files[w.grid.entries["snapshot"]] = cbor2.dumps({"version": 1, "statements": ["CREATE TABLE [x] ([y])", 7]})
        t.recover()
        w.grid.fail_list = False
        w.grid.files[w.grid.entries["snapshot"]] = keep
        # another process
        t.factory = S.RecoverFactory(t.store, V.get_tahoe_lafs_downloader(w.grid))
    c = t.recover()
    ctx.check([m["stage"] for m in c.seen] == STAGES, "the recovery succeeds", c.seen)
    # as another process would upload it
    changes = R.get_events(t.conn).changes
    if changes and ctx.flag("uploaded in parts"):
        k = ctx.pick("part", sorted({1, 2, (len(changes) + 1) // 2, len(changes) - 1} - {0, len(changes)}) or [1])
        for part in (changes[:k], changes[k:]):
            if part:
                grid2.put("event-stream-%d" % part[-1].sequence, R.EventStream(changes=part).to_bytes().read())
    elif changes:
        grid2.put("event-stream-%d" % changes[-1].sequence, R.EventStream(changes=changes).to_bytes().read())
    third = Target(w)
    third.grid = grid2
    third.factory = S.RecoverFactory(third.store, V.get_tahoe_lafs_downloader(grid2))
    c = third.recover()
    ctx.cover("recovered twice")
    ctx.check([m["stage"] for m in c.seen] == STAGES, "the second recovery succeeds", c.seen)
    a, b = t.state(), third.state()
    for name in sorted(n for n, x in a.items() if not x.temp and n not in LOCAL):
        ctx.check(mkbool(same_table(a[name], b.get(name))), "the table is as it was: " + name)
    ctx.check(w.value(third.conn) == w.digest, "every change once, in order")


HARNESSES = []
for at in range(3):
    HARNESSES.append(H(h_again, "recovered into a replicated wallet", {"at": at}, "a voucher and 2 changes of any value, the snapshot taken after change %d; recovered into an empty wallet that is itself replicated and has recorded 0, 1, 5 or 100 changes, and has failed to recover once or not; and that one's replica recovered, its changes in 1 or 2 streams" % at, ["recovered twice"]))
OVER = "%d changes, numbered from %d, with any values, a snapshot after change %d, and up to %d event streams in the grid, each of any contiguous part of the changes, that together have all changes since the snapshot"
for at in range(4):
    for base in (0, 8):
        HARNESSES.append(H(h_overlap, "overlap%d" % at, {"changes": 3, "streams": 2, "at": at, "base": base}, OVER % (3, base + 1, at, 2), ["recovered", "several streams"]))

for kind in FAILURES:
    n = 6 if kind != "statement" else 80
    HARNESSES.append(H(h_failure, "failure, " + kind, {"kind": kind, "limit": n}, "a snapshot and an event stream of 2 changes of any value; what fails: %s%s" % (kind, ", any of the first %d" % n if kind == "statement" else ""), ["failed"] + (["more statements than that"] if kind == "statement" else [])))

WALLET = "a wallet with up to 2 vouchers, 3 tokens and blinding material in any state; %d operations of any kind (the first: %s) with any arguments, restarts included; the snapshot taken before or after any of them"
for first in range(len(OPS)):
    HARNESSES += [
        H(h_wallet, "wallet, " + OPS[first], {"first": first, "steps": 2}, WALLET % (2, OPS[first]), ["changes were recorded"] + OPS, tiers=("quick",)),
        H(h_wallet, "wallet, " + OPS[first], {"first": first, "steps": 3}, WALLET % (3, OPS[first]), ["changes were recorded"] + OPS, tiers=("thorough",), budget_s=800),
    ]
