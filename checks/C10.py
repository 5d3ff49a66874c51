"""Redeeming a voucher resumes, never repeats a finished step, and completes."""
import sqlite3

from symx.runner import H
from symx.values import *

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from _zkapauthorizer import controller as C
from _zkapauthorizer import model as M
from checks.wallet_common import *

PROPERTY = "C10"
TITLE = "redeeming a voucher resumes, never repeats a finished step, and completes"
ASSUMPTIONS = [
    "histories start from any state a voucher can be stored in (any number of finished steps, blinding material for the next step present or not) and are bounded in length; every shorter history is included",
    "a restart starts a new controller over the stored state; the attempt in progress is lost",
    "the retry obligations are for failures the redeemer reports; after a failed write of the wallet itself only a restart must resume",
]

KEY = "the key"


# -- the split of the tokens ----------------------------------------------------


def h_split(ctx, groups):
    ctx.opaque_text = True
    n = 1 + ctx.choice("groups", groups)
    total = ctx.int("total", 0, 1 << 60)
    asked = ctx.int("group", -3, groups + 3)
    try:
        got = C.token_count_for_group(n, total, asked)
    except ValueError:
        ctx.cover("refused")
        ctx.check(Or(total < n, asked < 0, asked >= n), "a split that makes sense is not refused")
        return
    ctx.cover("split")
    ctx.check(And(asked >= 0, asked < n), "no step out of range")
    ctx.check(total >= n, "every step has a token")
    parts = [C.token_count_for_group(n, total, i) for i in range(n)]
    ctx.check(Sum(parts) == total, "the parts make up the whole")
    ctx.check(got == lift_choice(asked, parts), "the part depends only on the step")
    for p in parts:
        ctx.check(p >= 1, "no part is empty")
        for q in parts:
            ctx.check(p - q <= 1, "parts differ by at most one")


def lift_choice(i, xs):
    out = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        out = Ite(i == k, xs[k], out)
    return out


# -- histories -------------------------------------------------------------------


class Issuer:
    """The redeemer: attempts wait for the history to decide them."""

    def __init__(self, run):
        self.run = run
        self.made = 0

    def random_tokens_for_voucher(self, voucher, counter, count):
        out = []
        for _ in range(count):
            self.made += 1
            out.append(M.RandomToken(b"R%0127d" % self.made))
        return out

    async def redeemWithCounter(self, voucher, counter, random_tokens):
        return await self.run.attempt(voucher.number, counter, random_tokens)

    def tokens_to_passes(self, message, unblinded_tokens):
        raise NotImplementedError


class Attempt:
    def __init__(self, voucher, counter):
        self.voucher = voucher
        self.counter = counter
        self.d = Deferred()
        self.over = False


class Run:
    """One history, with the bookkeeping it must agree with."""

    def __init__(self, ctx, groups, vouchers, fresh, done=None):
        self.ctx = ctx
        self.groups = groups
        self.w = Wallet(ctx)
        self.names = [voucher_name(i) for i in range(vouchers)]
        self.done, self.total, self.material, self.final = {}, {}, {}, {}
        self.failed = set()  # reported failures since the last restart
        self.stuck = set()  # a write failed: nothing is owed until a restart
        self.known = set()
        self.unsure = set()  # the last success may or may not have been written
        self.pending = []
        self.keep = []
        self.attempts = 0
        made = 0
        for i, v in enumerate(self.names):
            self.done[v] = 0
            self.total[v] = groups + 1
            if i < fresh:
                continue
            self.known.add(v)
            self.total[v] = total = groups + ctx.choice("extra%d" % i, 2)
            done = self.done[v] = ctx.choice("done%d" % i, groups + 1) if done is None else done
            state = "redeemed" if done == groups else ("pending", "double-spend")[ctx.choice("spent%d" % i, 2)]
            if state != "pending":
                self.final[v] = state
            got = sum(C.token_count_for_group(groups, total, k) for k in range(done))
            self.w.put(
                "vouchers",
                number=v.decode(),
                created="2029-01-01 00:00:00+00:00",
                state=state,
                finished=None if state == "pending" and not done else "2029-01-01 00:00:00+00:00",
                token_count=got if done else None,
                counter=done,
                expected_tokens=total,
                sequestered_count=0,
            )
            if state == "pending" and ctx.flag("material%d" % i):
                n = C.token_count_for_group(groups, total, done)
                mine = []
                for _ in range(n):
                    made += 1
                    t = b"M%0127d" % made
                    mine.append(t)
                    self.w.put("tokens", text=t.decode(), voucher=v.decode(), counter=done)
                self.material[v, done] = sorted(mine)
        self.w.ready()
        self.issuer = Issuer(self)
        self.restart()

    def restart(self):
        self.keep.extend(self.pending)
        self.pending = []
        self.failed.clear()
        self.stuck.clear()
        self.clock = Clock()
        self.keep.append(self.clock)
        self.controller = C.PaymentController(
            self.clock, self.w.store, self.issuer, self.groups + 1, allowed_public_keys={KEY}, num_redemption_groups=self.groups
        )
        self.keep.append(self.controller)
        for v in self.known:
            self.owed(v, "after a restart a voucher that is not finished is attempted")

    def active(self, v):
        return [a for a in self.pending if a.voucher == v]

    def owed(self, v, why):
        if v not in self.final and v not in self.stuck:
            self.ctx.check(len(self.active(v)) == 1, why)

    def attempt(self, v, counter, tokens):
        ctx = self.ctx
        self.attempts += 1
        ctx.check(v not in self.final, "a finished voucher is not redeemed again")
        if v in self.unsure and counter == self.done[v] + 1:
            self.done[v] += 1
        self.unsure.discard(v)
        ctx.check(not self.active(v), "one attempt at a time")
        ctx.check(counter == self.done[v], "the first unfinished step is attempted, in order")
        ctx.check(counter < self.groups, "no step beyond the last")
        values = sorted(t.token_value for t in tokens)
        ctx.check(len(set(values)) == len(values), "no blinding material twice")
        ctx.check(
            len(values) == C.token_count_for_group(self.groups, self.total[v], self.done[v]),
            "each step asks for its share of the tokens",
        )
        for (ov, oc), m in self.material.items():
            if (ov, oc) == (v, self.done[v]):
                ctx.check(m == values, "the same blinding material at each attempt at a step")
            else:
                ctx.check(not set(m) & set(values), "blinding material of another step is not used")
        self.material[v, self.done[v]] = values
        a = Attempt(v, self.done[v])
        self.pending.append(a)
        return a.d

    # events
    def success(self, a):
        n = len(self.material[a.voucher, a.counter])
        got = [M.UnblindedToken(b"U%s%04d%04d" % (a.voucher, a.counter, k) + b"=" * (128 - 53)) for k in range(n)]
        self.pending.remove(a)
        self.failed.discard(a.voucher)
        self.done[a.voucher] += 1
        if self.done[a.voucher] == self.groups:
            self.final[a.voucher] = "redeemed"
        a.d.callback(C.RedemptionResult(got, KEY))
        if self.final.get(a.voucher) is None:
            self.owed(a.voucher, "the next step follows a success")

    def success_unsaved(self, a, k):
        """The answer is lost: the wallet cannot write it down."""
        n = len(self.material[a.voucher, a.counter])
        got = [M.UnblindedToken(b"U%s%04d%04d" % (a.voucher, a.counter, j) + b"=" * (128 - 53)) for j in range(n)]
        self.pending.remove(a)
        v = a.voucher
        self.stuck.add(v)
        self.unsure.add(v)
        self.w.fail_at(k)
        a.d.callback(C.RedemptionResult(got, KEY))
        self.w.no_faults()
        st = self.w.store.get(v).state
        if isinstance(st, M.Redeemed):
            self.ctx.check(self.done[v] == self.groups - 1, "only the last step redeems the voucher")
            self.done[v] = self.groups
            self.final[v] = "redeemed"
        elif v in self.unsure and st.counter == self.done[v] + 1:
            self.done[v] += 1
        self.unsure.discard(v)

    def fail(self, a, exc, final=False):
        self.pending.remove(a)
        if final:
            self.final[a.voucher] = "double-spend"
        else:
            self.failed.add(a.voucher)
        a.d.errback(Failure(exc))
        if final:
            self.ctx.check(not self.active(a.voucher), "a spent voucher is not attempted again")

    def tick(self):
        self.clock.advance(C.RETRY_INTERVAL.total_seconds())
        for v in sorted(self.failed):
            self.owed(v, "a voucher whose attempt failed is attempted again at the next retry")

    def submit(self, v):
        bad = []
        d = Deferred.fromCoroutine(self.controller.redeem(v))
        d.addErrback(bad.append)
        self.known.add(v)
        self.keep.append(d)
        self.ctx.check(not bad, "submitting a voucher again is harmless", detail=str(bad))
        self.owed(v, "a submitted voucher is attempted")

    def check_stored(self):
        """The wallet agrees with what has happened."""
        ctx = self.ctx
        for v in sorted(self.known):
            got = self.w.store.get(v)
            st = got.state
            ctx.check(got.expected_tokens == self.total[v], "the size of a voucher never changes")
            if self.final.get(v) == "redeemed":
                ctx.check(isinstance(st, M.Redeemed), "after its last step a voucher is redeemed")
                ctx.check(st.token_count == self.total[v], "exactly the configured number of tokens")
            elif self.final.get(v) == "double-spend":
                ctx.check(isinstance(st, M.DoubleSpend), "a spent voucher is marked so")
            else:
                ctx.check(isinstance(st, M.Pending), "a voucher is unfinished until its last step")
                ctx.check(st.counter == self.done[v], "the recorded progress is the finished steps")


EVENTS = ("success", "unpaid", "error", "spent", "tick", "submit", "restart", "unsaved")


def h_history(ctx, groups, vouchers, fresh, length, events, done=None):
    r = Run(ctx, groups, vouchers, fresh, done)
    for v in r.names[:fresh]:
        r.submit(v)
    for step in range(length):
        options = [(e, None) for e in ("tick", "restart") if e in events]
        for i, v in enumerate(r.names):
            options.append(("submit", v))
        for a in list(r.pending):
            options += [(e, a) for e in ("success", "unpaid", "error", "spent", "unsaved") if e in events]
        e, x = options[ctx.choice("event%d" % step, len(options))]
        ctx.cover(e)
        if e == "tick":
            r.tick()
        elif e == "restart":
            r.restart()
        elif e == "submit":
            r.submit(x)
        elif e == "success":
            r.success(x)
            if r.final.get(x.voucher) == "redeemed":
                ctx.cover("redeemed")
        elif e == "unsaved":
            r.success_unsaved(x, ctx.choice("failing%d" % step, 7))
        elif e == "unpaid":
            r.fail(x, C.Unpaid(x.voucher))
        elif e == "error":
            r.fail(x, Exception("transient"))
        else:
            r.fail(x, C.AlreadySpent(x.voucher), final=True)
        r.check_stored()
    r.check_stored()
    ctx.observe("attempts", r.attempts)


class Any:
    """A redeemer that takes what it is given and reports the first outcome."""

    def __init__(self, ctx, outcome):
        self.asked, self.tried, self.outcome = [], [], outcome

    def random_tokens_for_voucher(self, voucher, counter, count):
        self.asked.append((voucher, counter, count))
        return [M.RandomToken(b"R%0127d" % len(self.asked))]

    async def redeemWithCounter(self, voucher, counter, random_tokens):
        self.tried.append((voucher, counter, random_tokens))
        if len(self.tried) > 1:
            return await Deferred()
        if self.outcome == "success":
            return C.RedemptionResult([M.UnblindedToken(b"U%0127d" % 1)], KEY)
        raise {"unpaid": C.Unpaid, "spent": C.AlreadySpent, "error": ValueError}[self.outcome]()


def h_resume(ctx, groups):
    """One step from any stored progress, for any number of tokens."""
    ctx.opaque_text = True
    w = Wallet(ctx)
    there = ctx.bool("there")
    state = sqlsym.sym_text(ctx, "state", ("pending", "double-spend", "redeemed"))
    counter = ctx.int("counter", 0, groups - 1)
    total = ctx.int("total", groups, 1 << 60)
    earlier = "2029-01-01 00:00:00+00:00"
    v = voucher_name(0)
    w.put("vouchers", there, number=v.decode(), created=earlier, state=state, finished=earlier, token_count=1, counter=counter, expected_tokens=total, sequestered_count=0)
    w.ready()
    outcome = ctx.pick("outcome", ["success", "unpaid", "error", "spent"])
    red = Any(ctx, outcome)
    c = C.PaymentController(Clock(), w.store, red, 1 << 40, allowed_public_keys={KEY}, num_redemption_groups=groups)
    is_pending = state == "pending" if ctx.concrete else B(sqlsym.eq_term(state, "pending"))
    if not red.tried:
        ctx.cover("left alone")
        ctx.check(Not(And(there, is_pending)), "an unfinished voucher is attempted at the start")
        return
    ctx.cover(outcome)
    ctx.check(And(there, is_pending), "only an unfinished voucher is attempted")
    voucher, at, tokens = red.tried[0]
    ctx.check(voucher.number == v, "the voucher that is stored")
    ctx.check(at == counter, "the first unfinished step")
    asked_voucher, asked_at, count = red.asked[0]
    ctx.check(asked_at == counter, "material for the step")
    ctx.check(asked_voucher.number == v, "material for the voucher")
    size = total // groups
    ctx.check(count == size + Ite(counter < total - size * groups, 1, 0), "the step's share of the tokens")
    row = list(w.state()["vouchers"].rows)[0]
    cells = dict(zip(w.state()["vouchers"].colnames(), row.v))
    nxt = counter + (1 if outcome == "success" else 0)
    ctx.check(B(sqlsym.eq_term(cells["counter"], nxt)), "progress advances with success only")
    if outcome == "success":
        last = counter == groups - 1
        ctx.check(Iff(B(sqlsym.eq_term(cells["state"], "redeemed")), last), "redeemed after the last step")
        ctx.check(Iff(B(sqlsym.eq_term(cells["state"], "pending")), Not(last)), "unfinished until the last step")
        ctx.check(Iff(last, len(red.tried) == 1), "the next step follows unless this was the last")
        if len(red.tried) == 2:
            ctx.cover("next step")
            ctx.check(red.tried[1][1] == counter + 1, "in order")
    else:
        want = "double-spend" if outcome == "spent" else "pending"
        ctx.check(B(sqlsym.eq_term(cells["state"], want)), "only a spent voucher is given up")
        ctx.check(len(red.tried) == 1, "a failure stops the redemption for now")


HARNESSES = []
Q = ("quick",)
T = ("thorough",)


def add(fn, bounds, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(H(fn, params=p, bounds=bounds % p, covers=covers, tiers=tiers))


add(h_split, "1 to %(groups)d steps, totals below 2**60", ["split", "refused"], groups=20)
ALL = list(EVENTS)
B1 = "%(vouchers)d vouchers (%(fresh)d new), %(groups)d steps each, %(length)d events"
base = ["success", "unpaid", "error", "spent", "tick", "restart", "submit"]
for d in (0, 1, 2):
    cov = ["success", "unpaid", "error", "tick", "restart"] if d < 2 else ["submit", "restart"]
    add(h_history, B1, cov, Q, groups=2, vouchers=1, fresh=0, length=4, events=base, done=d)
    add(h_history, B1, cov, T, groups=3, vouchers=1, fresh=0, length=5, events=base, done=d)
    cov = ["unsaved", "restart", "success"] if d < 2 else []
    add(h_history, B1, cov, Q, groups=2, vouchers=1, fresh=0, length=3, events=["unsaved", "restart", "success"], done=d)
    add(h_history, B1, cov, T, groups=3, vouchers=1, fresh=0, length=5, events=["unsaved", "restart", "success"], done=d)
add(h_history, B1, ["success", "unpaid", "redeemed"], Q, groups=3, vouchers=1, fresh=1, length=4, events=base)
add(h_history, B1, ["success", "unpaid"], Q, groups=2, vouchers=2, fresh=2, length=3, events=base)
add(h_history, B1, ["success", "unpaid", "redeemed"], T, groups=3, vouchers=1, fresh=1, length=6, events=base)
add(h_history, B1, ["success", "unpaid", "redeemed"], T, groups=2, vouchers=2, fresh=2, length=4, events=base)
add(h_resume, "%(groups)d steps, any stored progress and state, any number of tokens below 2**60", ["success", "unpaid", "error", "spent", "left alone", "next step"], Q, groups=16)
add(h_resume, "%(groups)d steps, any stored progress and state, any number of tokens below 2**60", ["success", "unpaid", "error", "spent", "left alone", "next step"], T, groups=64)
