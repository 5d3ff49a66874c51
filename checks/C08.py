"""Unspent tokens are handed out once and never lost."""
import sqlite3

from symx.runner import H
from symx.values import *

from _zkapauthorizer.model import NotEnoughTokens, UnblindedToken
from checks.wallet_common import *

PROPERTY = "C08"
TITLE = "unspent tokens are handed out once and never lost"
ASSUMPTIONS = [
    "one step from an arbitrary state of the tables: taken tokens are spendable tokens of the wallet, set-aside tokens are no longer in it (each step is shown to preserve this, so it holds along every history)",
    "callers hand back only tokens they were given (C06 shows the storage client does)",
    "SQL semantics: symx/sqlsym.py, validated against SQLite on the models of sampled paths",
]


class State:
    """An arbitrary valid state with up to n tokens in up to g groups."""

    def __init__(self, ctx, n, g):
        self.ctx = ctx
        w = self.w = Wallet(ctx)
        self.names = [token_name(i).decode() for i in range(n)]
        self.groups = []
        for j in range(1, g + 1):
            there = ctx.bool("group%d" % j)
            ok = ctx.int("spendable%d" % j, 0, 1)
            w.put(
                "redemption-groups",
                there,
                rowid=j,
                voucher="v",
                spendable=ok,
                public_key="k%d" % j,
            )
            self.groups.append(And(there, ok == 1))
        self.present, self.group, self.usable, self.used, self.bad = [], [], [], [], []
        for i, t in enumerate(self.names):
            present = ctx.bool("present%d" % i)
            grp = ctx.int("group of %d" % i, 1, g + 1)
            spendable = Or(*[And(grp == j + 1, self.groups[j]) for j in range(g)])
            used = ctx.bool("used%d" % i)
            bad = ctx.bool("invalid%d" % i)
            ctx.assume(Implies(used, And(present, spendable)))
            ctx.assume(Implies(bad, Not(present)))
            w.put("unblinded-tokens", present, token=t, redemption_group=grp)
            w.put("in-use", used, unblinded_token=t)
            w.put("invalid-unblinded-tokens", bad, token=t, reason="before")
            self.present.append(present)
            self.group.append(grp)
            self.usable.append(And(present, spendable, Not(used)))
            self.used.append(used)
            self.bad.append(bad)
        self.before = w.ready()

    def number(self, token):
        return self.names.index(token.unblinded_token.decode("ascii"))

    def taken(self, label):
        """Some tokens that have been taken out."""
        out = []
        for i in range(len(self.names)):
            if self.ctx.flag("%s%d" % (label, i)):
                self.ctx.assume(self.used[i])
                out.append(i)
        return out

    def tokens(self, idx):
        return [UnblindedToken(self.names[i].encode("ascii")) for i in idx]

    def expect(self, present=None, used=None, bad=None, reason=None):
        """The state is the old one but for the given changes."""
        ctx = self.ctx
        after = self.w.state()
        self.w.check_atomic(self.before, after)
        for i, t in enumerate(self.names):
            p = present[i] if present else self.present[i]
            u = used[i] if used else self.used[i]
            b = bad[i] if bad else self.bad[i]
            ctx.check(
                Iff(B(has_row(after, "unblinded-tokens", token=t, redemption_group=self.group[i])), p),
                "a token is in the wallet, in its group, exactly when it should be",
            )
            ctx.check(Iff(B(has_row(after, "in-use", unblinded_token=t)), u), "a token is out exactly when it should be")
            r = reason if bad is not None and b is True else "before"
            ctx.check(
                Iff(B(has_row(after, "invalid-unblinded-tokens", token=t, reason=r)), b),
                "a token is on record as invalid exactly when it should be",
            )
        for table, want in (
            ("unblinded-tokens", present or self.present),
            ("in-use", used or self.used),
            ("invalid-unblinded-tokens", bad or self.bad),
        ):
            n = sqlsym.count_rows(after, table)
            ctx.check(n == Sum(Ite(x, 1, 0) for x in want), "no other rows: " + table)
        rest = [t for t in after if t not in ("unblinded-tokens", "in-use", "invalid-unblinded-tokens")]
        for t in rest:
            ctx.check(B(same_table(self.before.get(t), after[t])), "nothing else changes: " + t)
        ctx.observe(
            "after", [sqlsym.count_rows(after, t) for t in ("unblinded-tokens", "in-use", "invalid-unblinded-tokens")]
        )


def h_get(ctx, n, g):
    s = State(ctx, n, g)
    usable = Sum(Ite(u, 1, 0) for u in s.usable)
    count = ctx.int("count", 0, n + 1)
    if ctx.flag("huge"):
        count = count + (1 << 63)
    try:
        got = s.w.store.get_unblinded_tokens(count)
    except NotEnoughTokens:
        ctx.cover("too few")
        ctx.check(usable < count, "only a shortage refuses the request")
        s.expect()
        return
    ctx.cover("given")
    idx = [s.number(t) for t in got]
    ctx.check(count == len(idx), "exactly the requested number")
    ctx.check(len(set(idx)) == len(idx), "distinct tokens")
    for i in idx:
        ctx.check(s.usable[i], "only usable tokens that are not taken")
    s.expect(used=[Or(s.used[i], i in idx) for i in range(n)])


def h_count(ctx, n, g):
    s = State(ctx, n, g)
    usable = Sum(Ite(u, 1, 0) for u in s.usable)
    ctx.check(s.w.store.count_unblinded_tokens() == usable, "the advertised count is what could be taken")
    ctx.cover("counted")
    s.expect()


def h_finish(ctx, n, g, op):
    s = State(ctx, n, g)
    idx = s.taken("chosen")
    gone = [Implies(True, i in idx) for i in range(n)]
    keep = lambda xs: [And(xs[i], i not in idx) for i in range(n)]
    if op == "discard":
        s.w.store.discard_unblinded_tokens(s.tokens(idx))
        ctx.cover("done")
        s.expect(present=keep(s.present), used=keep(s.used))
    elif op == "reset":
        s.w.store.reset_unblinded_tokens(s.tokens(idx))
        ctx.cover("done")
        s.expect(used=keep(s.used))
    else:
        s.w.store.invalidate_unblinded_tokens("because", s.tokens(idx))
        ctx.cover("done")
        bad = [True if i in idx else s.bad[i] for i in range(n)]
        s.expect(present=keep(s.present), used=keep(s.used), bad=bad, reason="because")


def h_fault(ctx, n, g, op):
    """Any statement fails: nothing has changed"""
    s = State(ctx, n, g)
    idx = s.taken("chosen") if op != "get" else []
    k = ctx.choice("failing", 8)
    s.w.fail_at(k)
    try:
        if op == "get":
            s.w.store.get_unblinded_tokens(1)
        elif op == "discard":
            s.w.store.discard_unblinded_tokens(s.tokens(idx))
        elif op == "reset":
            s.w.store.reset_unblinded_tokens(s.tokens(idx))
        else:
            s.w.store.invalidate_unblinded_tokens("because", s.tokens(idx))
    except (sqlite3.OperationalError, NotEnoughTokens):
        ctx.cover("failed")
    else:
        s.w.no_faults()
        ctx.check(s.w.left >= 0, "a failing statement is not ignored")
        ctx.cover("not reached")
        return
    s.w.no_faults()
    after = s.w.state()
    ctx.check(no_change(s.before, after), "a failed operation changes nothing")
    for c in s.w.commits:
        ctx.check(mkbool(same_state(c, s.before, temp=False)), "a failed operation saves nothing")


HARNESSES = []


def add(fn, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(
        H(fn, params=p, bounds="an arbitrary state with up to %(n)d tokens in up to %(g)d redemption groups" % p, covers=covers, tiers=tiers)
    )


Q = ("quick",)
T = ("thorough",)
for n, g, tiers in ((4, 2, Q), (6, 3, T)):
    add(h_get, ["given", "too few"], tiers, n=n, g=g)
    for op in ("discard", "reset", "invalidate"):
        add(h_finish, ["done"], tiers, n=n, g=g, op=op)
add(h_count, ["counted"], Q, n=6, g=3)
add(h_count, ["counted"], T, n=12, g=4)
for op in ("discard", "reset", "invalidate", "get"):
    add(h_fault, ["failed"], n=2, g=1, op=op)
