"""Client passes are conserved through any sequence of server answers."""
from symx.runner import H
from symx.values import *

from _zkapauthorizer.model import NotEnoughTokens, Pass, UnblindedToken
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.storage_common import MorePassesRequired
from checks.client_common import *
from checks.server_common import CANCEL, RENEW, SI, WRITE_ENABLER, Patcher
from checks.wallet_common import fill, real_store, rows, token_name
from twisted.internet.task import Clock

PROPERTY = "C06"
TITLE = "client passes are conserved through any sequence of server answers"
ASSUMPTIONS = [
    "the wallet follows C08: its four token operations are a model with explicit token states in the symbolic run, the real VoucherStore over SQLite in the concrete replays",
    "rejections beyond the bound are not explored; in particular a server that answers with out-of-range positions for ever keeps the client retrying for ever",
    "a token becomes a pass by an opaque, injective function (the cryptography is not re-verified here; see C07)",
]
PV = 100


class Wallet:
    """Model of the wallet; any use of a token in the wrong state is an
    error."""

    def __init__(self, ctx, n, real=True):
        self.ctx = ctx
        self.state = {token_name(i): "free" for i in range(n)}
        self.real = real and ctx.concrete
        if self.real:
            self.store = real_store(ctx)
            if n:
                fill(self.store, sorted(self.state))

    def _move(self, tokens, to, what):
        ctx = self.ctx
        names = [t.unblinded_token for t in tokens]
        ctx.check(len(set(names)) == len(names), "no token is handled twice at once: " + what)
        for n in names:
            ctx.check(self.state[n] == "used", "only tokens taken out are " + what, (n, self.state[n]))
            self.state[n] = to

    def get_unblinded_tokens(self, count):
        if self.real:
            got = self.store.get_unblinded_tokens(count)
        else:
            count = count.__index__()
            free = sorted(n for n, s in self.state.items() if s == "free")
            if len(free) < count:
                raise NotEnoughTokens()
            got = [UnblindedToken(n) for n in free[:count]]
        for t in got:
            self.state[t.unblinded_token] = "used"
        return got

    def discard_unblinded_tokens(self, tokens):
        self._move(tokens, "spent", "spent")
        if self.real:
            self.store.discard_unblinded_tokens(tokens)

    def invalidate_unblinded_tokens(self, reason, tokens):
        self._move(tokens, "invalid", "set aside")
        if self.real:
            self.store.invalidate_unblinded_tokens(reason, tokens)

    def reset_unblinded_tokens(self, tokens):
        self._move(tokens, "free", "returned")
        if self.real:
            self.store.reset_unblinded_tokens(tokens)

    def named(self, state):
        return sorted(n for n, s in self.state.items() if s == state)

    def verify_store(self):
        if not self.real:
            return
        # the real wallet agrees with the bookkeeping above
        inv = sorted(r[0].encode() for r in rows(self.store, "SELECT * FROM [invalid-unblinded-tokens]"))
        have = sorted(r[0].encode() for r in rows(self.store, "SELECT [token] FROM [unblinded-tokens]"))
        use = sorted(r[0].encode() for r in rows(self.store, "SELECT * FROM [in-use]"))
        self.ctx.check(inv == self.named("invalid"), "the wallet's record of invalid tokens", inv)
        self.ctx.check(have == sorted(self.named("free") + self.named("used")), "the wallet's tokens", have)
        self.ctx.check(use == self.named("used"), "the wallet's tokens in use", use)


class Op:
    """One storage operation in flight and what it has submitted."""

    def __init__(self, ctx, w, kind, tag, nmax, wire):
        self.ctx = ctx
        # how an exception of the server reaches the client
        self.raised = over_the_wire if wire else lambda e: e
        self.tag = tag
        self.kind = kind
        self.w = w
        self.pending = None
        self.attempts = []
        self.rejected = []
        self.answered = None
        self.result = None
        self.newly = None
        self.spent0 = None
        self.size = ctx.int("size" + tag, 0, PV * nmax)
        controller = SpendingController.for_store(self.to_passes, w)
        c = ZKAPAuthorizerStorageClient(PV, lambda: Ref(self.handler), controller.get, Clock())
        if kind == "allocate":
            self.nshares = 2 if nmax > 1 else 1
            ctx.assume(self.size <= PV * nmax // self.nshares)
            self.price = self.nshares * ceil_div(self.size, PV)
            d = c.allocate_buckets(SI, RENEW, CANCEL, set(range(self.nshares)), self.size, None)
        elif kind == "add_lease":
            self.price = ceil_div(self.size, PV)
            d = c.add_lease(SI, RENEW, CANCEL)
        else:
            data = [(self.size, b"")]
            ctx.assume(self.size > 0)
            self.price = ceil_div(self.size, PV)
            d = c.slot_testv_and_readv_and_writev(
                SI, (WRITE_ENABLER, RENEW, CANCEL), {0: ([], data, None)}, []
            )
        self.d = d
        self.done = []
        d.addCallbacks(
            lambda v: self.done.append(("value", v)), lambda f: self.done.append(("error", f.value))
        )

    def to_passes(self, message, tokens):
        return [Pass(b"p" + t.unblinded_token[-87:], b"s" + t.unblinded_token[-87:]) for t in tokens]

    def handler(self, name, *args):
        if name == "share_sizes":
            return {3: self.size}
        if name == "stat_shares":
            return [{}]
        ctx = self.ctx
        raw = args[0]
        names = [token_name(int(p.split(b" s")[1])) for p in raw]
        price = self.price
        ctx.check(len(names) == price, "each attempt carries exactly the required number of passes")
        ctx.check(len(set(names)) == len(names), "the passes of an attempt are distinct")
        ctx.check(not any(n in self.rejected for n in names), "a rejected pass is not submitted again")
        for n in names:
            ctx.check(self.w.state[n] == "used", "only passes taken out for this are submitted", n)
        self.attempts.append(names)
        self.pending = Deferred()
        return self.pending

    def answer(self, k):
        ctx = self.ctx
        d, self.pending = self.pending, None
        names = self.attempts[-1]
        n = len(names)
        before = dict(self.w.state)
        kind = ctx.pick(
            "answer%s_%d" % (self.tag, k), ["ok", "rejected", "refused", "broken", "garbage", "cancelled"]
        )
        self.answered = kind
        ctx.cover(kind)
        if kind == "ok":
            if self.kind == "allocate":
                self.newly = ctx.choice("new%s_%d" % (self.tag, k), self.nshares + 1)
                v = (set(), {i: object() for i in range(self.newly)})
            elif self.kind == "add_lease":
                v = None
            else:
                v = (ctx.flag("wrote%s" % self.tag), {})
            d.callback(v)
        elif kind == "rejected":
            bad = [i for i in range(n) if ctx.flag("bad%s_%d_%d" % (self.tag, k, i))]
            beyond = [] if bad else [n + 1]
            self.rejected = [names[i] for i in bad]
            d.errback(self.raised(MorePassesRequired(n - len(bad), n, frozenset(bad + beyond))))
            for i in bad:
                ctx.check(self.w.state[names[i]] == "invalid", "a rejected pass is set aside")
        elif kind == "refused":
            self.found = (ctx.choice("valid%s_%d" % (self.tag, k), n + 1), n + 1)
            d.errback(self.raised(MorePassesRequired(*self.found, frozenset())))
        elif kind == "broken":
            d.errback(self.raised(RuntimeError("connection lost")))
        elif kind == "garbage":
            if self.kind == "add_lease":
                # the answer to this call carries nothing
                self.answered = "ok"
                d.callback(object())
            else:
                d.callback(ctx.pick("garbage%s" % self.tag, [None, (1, 2)]))
        else:
            self.d.cancel()

    def finished(self):
        return bool(self.done)


def h_ops(ctx, kinds, tokens, nmax, answers, wire=False):

    if not ctx.concrete:
        Patcher(ctx).builtins()
    w = Wallet(ctx, ctx.choice("wallet", tokens + 1))
    total = sorted(w.state)
    ops = []
    judged = set()
    for j, kind in enumerate(kinds):
        ops.append(Op(ctx, w, kind, chr(97 + j), nmax, wire))
        judge(ctx, w, ops, judged)
    for k in range(answers):
        waiting = [o for o in ops if o.pending is not None]
        if not waiting:
            break
        o = waiting[ctx.choice("turn%d" % k, len(waiting))]
        others = [(x, list(x.attempts[-1])) for x in ops if x is not o and x.pending is not None]
        o.answer(k)
        for x, names in others:
            for n in names:
                ctx.check(w.state[n] == "used", "another operation's passes are left alone")
        judge(ctx, w, ops, judged)
    # whatever is still waiting now holds exactly the passes it submitted
    holding = sorted(n for o in ops if o.pending is not None for n in o.attempts[-1])
    ctx.check(w.named("used") == holding, "a token is out of the wallet only while an operation waits", w.named("used"))
    ctx.check(sorted(w.state) == total, "no token appears or vanishes")
    w.verify_store()
    ctx.observe("states", [len(w.named(s)) for s in ("free", "used", "spent", "invalid")])


def judge(ctx, w, ops, judged):
    """Once an operation is over: where are its tokens?"""
    for o in ops:
        if not o.finished() or id(o) in judged:
            continue
        judged.add(id(o))
        last = o.attempts[-1] if o.attempts else []
        kind, value = o.done[0]
        spent_by_o = [n for n in last if w.state[n] == "spent"]
        if o.answered == "ok":
            ctx.check(kind == "value", "a successful answer is a success", repr(value)[:200])
            ctx.cover("success")
            if o.kind == "allocate":
                price = o.newly * ceil_div(o.size, PV)
                ctx.check(len(spent_by_o) == price, "an upload spends the price of what was allocated")
            else:
                ctx.check(spent_by_o == last, "a successful operation spends its passes")
        else:
            ctx.check(kind == "error", "any other answer is a failure", value)
            ctx.check(not spent_by_o, "a failed operation spends nothing")
            if o.answered in (None, "rejected"):
                # over without an answer: only a shortage of tokens does that
                ctx.cover("shortage")
                ctx.check(isinstance(value, NotEnoughTokens), "a shortage of tokens is reported", repr(value)[:200])
            elif o.answered == "refused":
                ctx.check(isinstance(value, MorePassesRequired), "a refusal is reported", repr(value)[:200])
                if isinstance(value, MorePassesRequired):
                    told = (value.valid_count, value.required_count)
                    ctx.check(told == o.found, "a refusal is reported as the server made it", told)
        for n in last:
            if n not in o.rejected and n not in spent_by_o:
                mine = [x for x in ops if x is not o and x.pending is not None and n in x.attempts[-1]]
                ctx.check(w.state[n] == "free" or bool(mine), "an unused token is available again", (n, w.state[n]))


def h_report(ctx, n, attempts):
    """Rejections of any size, as they arrive from a server: Foolscap cuts the
    text of an exception short, so one rejection may name only some."""
    if not ctx.concrete:
        Patcher(ctx).builtins()
    w = Wallet(ctx, 2 * n, real=False)
    first = ctx.choice("first", 2) * 9
    last = n - ctx.choice("last", 2) * 101
    step = ctx.pick("step", [1, 7])
    extra = ctx.int("extra", 0, PV - 1)
    bad = set(range(first, last, step))
    sent = []

    def handler(name, passes, *args):
        names = [token_name(int(p.split(b" s")[1])) for p in passes]
        ctx.check(all(w.state[x] == "used" for x in names), "a rejected pass is not submitted again")
        ctx.check(len(set(names)) == n == len(names), "each attempt carries exactly the required number of distinct passes")
        sent.append([i for i, x in enumerate(names) if int(x) in bad])
        if sent[-1] and len(sent) < attempts:
            return fail(over_the_wire(MorePassesRequired(n - len(sent[-1]), n, frozenset(sent[-1]))))
        return fail(over_the_wire(RuntimeError("enough")))

    def to_passes(message, tokens):
        return [Pass(b"p" + t.unblinded_token[-87:], b"s" + t.unblinded_token[-87:]) for t in tokens]

    controller = SpendingController.for_store(to_passes, w)
    c = ZKAPAuthorizerStorageClient(PV, lambda: Ref(handler), controller.get, Clock())
    r = outcome(c.allocate_buckets(SI, RENEW, CANCEL, {0}, PV * n - extra, None))
    ctx.cover("rejected")
    ctx.check(r[0] == "error" and sent[-1] == [], "every rejected pass is replaced", [len(x) for x in sent])
    ctx.check(w.named("invalid") == sorted(token_name(i) for i in bad), "the rejected passes, and no other, are set aside")
    ctx.check(not w.named("used") and not w.named("spent"), "every other pass goes back")
    ctx.observe("attempts", len(sent))


HARNESSES = []


def add(kinds, tiers=("quick", "thorough"), **p):
    cov = ["ok", "rejected", "broken", "cancelled", "success", "shortage"]
    HARNESSES.append(
        H(
            h_ops,
            name="ops(%s,%s)" % ("+".join(kinds), ",".join("%s=%s" % i for i in sorted(p.items()))),
            params=dict(p, kinds=kinds),
            bounds="operations in flight together: %s; wallet of up to %d tokens; a price of up to %d; %d server answers in any order; any subset of positions rejected"
            % (" and ".join(kinds), p["tokens"], p["nmax"], p["answers"]),
            covers=cov,
            tiers=tiers,
        )
    )


T = ("thorough",)
for k in ("allocate", "add_lease", "write"):
    add((k,), tokens=4, nmax=2, answers=2)
for k in ("allocate", "add_lease", "write"):
    add((k,), tokens=3, nmax=2, answers=2, wire=True)
HARNESSES.append(
    H(
        h_report,
        "report",
        {"n": 260, "attempts": 5},
        "260 passes; rejected are all or every seventh of the positions from 0 or 9 to 159 or 260; the upload of any size with this price",
        ["rejected"],
    )
)
add(("allocate",), tokens=5, nmax=2, answers=3)
add(("allocate",), tokens=5, nmax=4, answers=2)
add(("add_lease", "write"), tokens=3, nmax=1, answers=2)
add(("allocate", "add_lease"), tokens=3, nmax=2, answers=2)
for k in ("allocate", "add_lease", "write"):
    add((k,), tiers=T, tokens=6, nmax=3, answers=3)
add(("add_lease", "write"), tiers=T, tokens=3, nmax=1, answers=3)
add(("allocate", "write"), tiers=T, tokens=4, nmax=2, answers=3)
