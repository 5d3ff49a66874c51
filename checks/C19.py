"""Recovery runs at most once, only into an empty wallet, and reports truthfully."""
from symx.runner import H
from symx.values import *

from autobahn.exception import Disconnected
from tahoe_capabilities import readonly_directory_from_string

from checks.C18 import *
from checks.C18 import Client as _Client

PROPERTY = "C19"
TITLE = "recovery runs at most once, only into an empty wallet, and reports truthfully"
ASSUMPTIONS = [
    "the websocket library raises Disconnected when a message is sent on a closed connection, ignores a close of one, and calls onClose once",
    "a commit that fails leaves the transaction open, as SQLite does when it is busy",
    "the import itself is one synchronous step: nothing else runs during it (C18 has its failures)",
]

OTHER = readonly_directory_from_string("URI:DIR2-RO:%s:%s" % ("c" * 26, "b" * 52))
V0, V1, V2 = (voucher_name(i) for i in range(3))


class Client(_Client):
    def __init__(self, factory, cap, gone=False):
        super().__init__(factory)
        self.cap, self.gone, self.noticed = cap, gone, False
        seen = self.seen

        def send(payload, isBinary=False):
            if self.gone:
                raise Disconnected("gone")
            if self.closed:
                self.after_close = True
            seen.append(json.loads(payload))

        self.after_close = False
        self.p.sendMessage = send
        try:
            self.ask(cap)
        except Disconnected:
            if not gone:
                raise


class SlowGrid(Grid):
    """Listings and downloads wait for the history, too."""

    def list_directory(self, dir_cap):
        self.asked = dir_cap
        return self.wait("list", None, lambda: {n: FileNode(size=len(self.files[c]), ro_uri=c) for n, c in self.entries.items()})

    def download(self, outpath, cap):
        return self.wait("download", outpath.name, lambda: outpath.setContent(self.files[cap]))


class Case:
    """An empty wallet (or one with a voucher), and a replica to recover."""

    def __init__(self, ctx, bad):
        self.ctx, self.bad = ctx, bad
        w = self.w = World(ctx)
        w.wrapped.enable_replication()
        service = R.replication_service(w.wrapped, w.grid.replica(), Policy(w))
        w.wrapped.add_mutation_observer(service.observed_event)
        w.store.add(V0, 10, 0, lambda: [RandomToken(token_name(1))])
        files = {"snapshot": w.store.snapshot()}
        w.change(True)
        changes = [R.Change(q, s, a, True) for q, s, a in w.local_events()][-1:]
        files["event-stream-%d" % changes[0].sequence] = R.EventStream(changes=changes).to_bytes().read()
        if bad == "replica":
            files["snapshot"] = cbor2.dumps({"version": 2, "statements": []})
        w.grid = self.grid = SlowGrid()
        for name in sorted(files):
            self.grid.put(name, files[name])
        t = self.t = Target(w)
        self.there = ctx.bool("voucher there")
        Wallet.put(t, "vouchers", self.there, number=V1.decode(), created=EARLIER, state="pending", counter=0, expected_tokens=10, sequestered_count=0, token_count=0)
        t.conn.commit()
        self.before = t.state()
        self.clients = []
        self.cap = None  # of the recovery
        self.updates = None
        self.committed = False
        self.service = None
        self.other = Grid()
        self.added = False
        if not ctx.concrete:
            t.conn.db.on_commit.append(lambda db: self.on_commit())

    def on_commit(self):
        pass

    # what may happen
    def ask(self, cap, gone=False):
        c = Client(self.t.factory, cap, gone)
        c.first = self.cap is None
        if c.first:
            self.cap = cap
        self.clients.append(c)

    def running(self):
        return self.cap is not None and bool(self.grid.pending)

    def leave(self, c):
        """The connection is lost, and that is noticed later."""
        c.gone = True

    def notice(self, c):
        c.gone = c.noticed = True
        c.p.onClose(True, 1000, "")

    def operate(self, what):
        ctx, store = self.ctx, self.t.store
        try:
            if what == "list":
                store.list()
            elif what == "add":
                store.add(V2, 10, 0, lambda: [RandomToken(token_name(7))])
            elif what == "get":
                store.get_unblinded_tokens(1)
            else:
                m = store.start_lease_maintenance()
                m.observe([1])
                m.finish()
        except M.NotEnoughTokens:
            ok = True
        except sqlite3.OperationalError:
            ok = False
        else:
            ok = True
            self.added = self.added or what == "add"
        ctx.check(ok != self.running(), "the wallet is used by one at a time", (what, ok))
        ctx.cover("the wallet is in use" if not ok else "the wallet is not in use")

    def replicate(self):
        """Replication is set up meanwhile, and proceeds."""
        if self.service is None:
            self.service = R.replication_service(self.t.wrapped, self.other.replica(), Policy(self.w))
            self.w.keep.append(self.service)
            self.service.startService()
        elif self.other.pending:
            self.other.decide("ok")

    def check(self):
        """After every event."""
        ctx = self.ctx
        inside = self.t.conn.in_transaction
        ctx.check(inside == self.running(), "the transaction lasts as long as the recovery does", inside)
        done = self.cap is not None and not self.running()
        accepted = [c for c in self.clients if c.cap == self.cap]
        full = max([c.seen for c in accepted], key=len, default=[])
        for c in self.clients:
            if c.cap != self.cap:
                ctx.check(c.seen == [] and c.closed == [4000], "another replica is refused", (c.seen, c.closed))
            elif not c.gone:
                ctx.check(c.seen == full, "everyone sees the same", (c.seen, full))
                ctx.check(len(c.closed) == (1 if done else 0), "disconnected at the end", c.closed)
                ctx.check(c.closed != [4000], "not refused", c.closed)
                ctx.check(not c.after_close, "nothing follows the close")


def valid(stages):
    """In order, with the failure last."""
    return stages == STAGES[: len(stages)] or (
        stages[:-1] == STAGES[: len(stages) - 1]
        and (stages[-1] == "import_failed" or stages[-1] == "download_failed" and len(stages) in (2, 3, 4) )
    )


EVENTS = ["nothing", "same", "same, gone", "other", "leave", "notice", "list", "add", "replicate"]


def h_schedule(ctx, bad, first, events, after, most):
    ctx.opaque_text = True
    s = Case(ctx, bad)
    t = s.t
    s.happened = 0

    def event(name, options):
        if s.happened > most:
            options = ["nothing"]
        what = options[ctx.choice(name, len(options))]
        present = [c for c in s.clients if not c.noticed]
        if what == "nothing":
            pass
        elif what.startswith("same"):
            s.ask(DIRCAP.reader, gone=what.endswith("gone"))
        elif what == "other":
            s.ask(OTHER)
        elif what in ("leave", "notice"):
            if what == "leave":
                present = [c for c in present if not c.gone]
            if not present:
                ctx.stop()
            c = present[ctx.choice(name + " who", len(present))]
            getattr(s, what)(c)
        elif what == "replicate":
            s.replicate()
        else:
            s.operate(what)
        if what != "nothing":
            s.happened += 1
        ctx.cover(what)
        s.check()

    if bad == "commit":
        def fault(ast):
            if ast is not None and ast[0] == "commit" and s.committing:
                return sqlite3.OperationalError("database is locked")
            return None

        s.committing = False
        target = t.conn if ctx.concrete else t.conn.db
        target.fault = fault

    s.committing = bad == "commit"
    s.ask(DIRCAP.reader)
    s.committing = False
    if not s.running():
        ctx.cover("not empty")
        ctx.check(s.there, "an empty wallet can be recovered")
        s.check()
        ctx.check([m["stage"] for m in s.clients[0].seen] == ["import_failed"], "the refusal is reported", s.clients[0].seen)
        ctx.check(type(s.clients[0].seen[0]["failure-reason"]) is str, "with a reason")
        ctx.check(mkbool(same_state(s.before, t.state())), "a wallet with a voucher is not touched")
        event("afterwards", events)
        ctx.check(s.grid.downloads == 0 and not s.grid.pending, "nothing is downloaded")
        return
    ctx.check(Not(s.there), "a wallet with a voucher is not recovered into")
    ctx.check(s.grid.asked == DIRCAP.reader, "the replica asked for")
    s.check()
    n = 0
    failed = False
    while s.running():
        event("event%d" % n, [first] if n == 0 else events)
        if not s.running():
            ctx.check(False, "the recovery goes on")
        how = "ok" if bad != "grid" or ctx.flag("ok%d" % n) else "fail"
        failed = failed or how == "fail"
        # any failure of a commit is that of the recovery's own transaction
        s.committing = bad == "commit"
        s.grid.decide(how)
        s.committing = False
        n += 1
        ctx.check(not (failed and s.running()), "a failure ends the recovery")
        s.check()
    if bad == "grid" and not failed:
        ctx.stop()
    success = bad is None
    for i in range(after):
        event("after%d" % i, events)
    # one more observer, after everything
    s.ask(DIRCAP.reader)
    s.check()
    late = s.clients[-1]
    stages = [m["stage"] for m in late.seen]
    if success:
        ctx.cover("succeeded")
        ctx.check(stages == STAGES, "the stages, and success", stages)
    else:
        ctx.cover("failed")
        want = "download_failed" if failed else "import_failed"
        ctx.check(stages[-1] == want, "the step that failed is named", stages)
        ctx.check(type(late.seen[-1]["failure-reason"]) is str, "with a reason")
        ctx.check([x for x in stages[:-1] if x in STAGES] == stages[:-1] == STAGES[: len(stages) - 1], "the stages in order", stages)
    now = t.state()
    skip = ("event-stream", "sqlite_sequence") if s.service else ()
    got = [v.number for v in t.store.list()]
    if success:
        ctx.check(V0 in got, "the voucher is there")
        ctx.check(s.w.value(t.conn) == 3 + s.w.xs[0], "the change is there")
    elif s.added:
        ctx.check(got == [V2], "a failed recovery leaves no voucher")
    else:
        ctx.check(got == [], "a failed recovery leaves no voucher")
        ctx.check(mkbool(same_state(s.before, now, skip=skip)), "a failed recovery leaves the wallet as it was")
    ctx.check((V2 in got) == s.added, "what was added meanwhile is there")


MESSAGES = [
    b"", b"{", b"[]", b"7", b"null", b"\xff", b'"x"', b"{}",
    b'{"recovery-capability": null}', b'{"recovery-capability": 7}', b'{"recovery-capability": []}', b'{"recovery-capability": "x"}',
]


def h_message(ctx):
    """What is not a request starts nothing."""
    ctx.opaque_text = True
    s = Case(ctx, None)
    t = s.t
    good = danger_real_capability_string(DIRCAP.reader)
    payloads = MESSAGES + [
        json.dumps(x).encode()
        for x in (
            {"recovery-capability": good, "more": 1},
            {"recovery-capability": [good]},
            {"capability": good},
            [good],
            {"recovery-capability": danger_real_capability_string(child_cap(1))},
            {"recovery-capability": "URI:DIR2-Verifier:%s:%s" % ("a" * 26, "b" * 52)},
            {"recovery-capability": good.replace("DIR2", "DIR3")},
        )
    ]
    payload = payloads[ctx.choice("message", len(payloads))]
    before = ctx.flag("a recovery is running")
    if before:
        s.ask(DIRCAP.reader)
        if not s.running():
            ctx.stop()
    c = _Client(t.factory)
    c.p.onMessage(payload, ctx.flag("binary"))
    ctx.cover("refused")
    ctx.check(c.closed == [4000], "the connection is closed", (payload, c.closed))
    ctx.check(c.seen == [], "and nothing else is sent", c.seen)
    ctx.check(t.conn.in_transaction == before, "nothing is started, and nothing ended")
    ctx.check(len(s.grid.pending) == (1 if before else 0), "nothing is downloaded")
    if before:
        ctx.check(len(s.clients[0].closed) == 0, "the other client is not disconnected")
    s.ask(DIRCAP.reader)
    ctx.check(Or(s.running(), s.there), "a good request is served next")


def h_wallet(ctx, state):
    """Whatever state a voucher is in, its wallet is not recovered into."""
    ctx.opaque_text = True
    s = Case(ctx, None)
    t = s.t
    there = [s.there]
    for i in range(2):
        present = ctx.bool("voucher%d" % i)
        there.append(present)
        counter = ctx.int("counter%d" % i, 0, 16)
        expected = ctx.int("expected%d" % i, 0, 2 ** 20)
        cells = dict(number=voucher_name(3 + i).decode(), created=EARLIER, counter=counter, expected_tokens=expected, sequestered_count=0, token_count=0)
        cells["state"] = state
        if state != "pending":
            cells["finished"] = EARLIER
        if state == "redeemed":
            cells["token_count"] = ctx.int("count%d" % i, 0, 2 ** 20)
            cells["sequestered_count"] = ctx.int("sequestered%d" % i, 0, 2 ** 20)
        Wallet.put(t, "vouchers", present, **cells)
    t.conn.commit()
    before = t.state()
    s.ask(DIRCAP.reader)
    if s.running():
        ctx.check(Not(Or(*there)), "a wallet with a voucher is not recovered into")
        ctx.cover("empty")
        return
    ctx.cover("not empty")
    ctx.check(Or(*there), "an empty wallet can be recovered")
    ctx.check([m["stage"] for m in s.clients[0].seen] == ["import_failed"], "the refusal is reported", s.clients[0].seen)
    ctx.check(mkbool(same_state(before, t.state())), "a wallet with a voucher is not touched")
    ctx.check(s.grid.downloads == 0 and not s.grid.pending and not t.conn.in_transaction, "nothing is downloaded")


HARNESSES = []
for state in ("pending", "double-spend", "redeemed"):
    HARNESSES.append(
        H(h_wallet, "wallet, " + state, {"state": state}, "up to 3 vouchers, those that exist %s or not, with any counters and counts" % state, ["empty", "not empty"])
    )
B = "a recovery of a snapshot and an event stream into a wallet that is empty or not; what goes wrong: %s; one event before each of its 3 grid operations (the first: %s) and %d after it ends, %s; the events: %s"
for bad in (None, "grid", "replica", "commit"):
    for first in EVENTS:
        cov = ["failed" if bad else "succeeded", first]
        if first in ("list", "add"):
            cov.append("the wallet is in use")
        for tier, events, after, most in (("quick", EVENTS, 1, 1 if first == "nothing" else 2), ("thorough", EVENTS + ["get", "maintenance"], 2, 3)):
            HARNESSES.append(
                H(
                    h_schedule,
                    "schedule, what fails: %s, first: %s" % (bad, first),
                    {"bad": bad, "first": first, "events": events, "after": after, "most": most},
                    B % (bad or "nothing", first, after, "at most %d of them not nothing" % (most + 1), ", ".join(events)),
                    cov,
                    tiers=(tier,),
                    budget_s=800 if tier == "quick" else 3000,
                )
            )
HARNESSES.append(H(h_message, "messages", {}, "%d malformed messages, while a recovery is running or not" % (len(MESSAGES) + 7), ["refused"]))
