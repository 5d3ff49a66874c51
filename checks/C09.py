"""Redemption progress in the wallet is exact and atomic."""
import sqlite3

from symx.runner import H
from symx.values import *

from _zkapauthorizer.model import DoubleSpend, Pending, RandomToken, Redeemed, UnblindedToken
from checks.wallet_common import *

PROPERTY = "C09"
TITLE = "redemption progress in the wallet is exact and atomic"
ASSUMPTIONS = [
    "one step from an arbitrary state of the tables that satisfies the invariants each step is shown to keep (unfinished vouchers have no finish time they are judged by; token counts are not negative)",
    "a step's tokens are recorded for a voucher that is still pending (C10 shows the controller never redeems any other)",
    "SQL semantics: symx/sqlsym.py, validated against SQLite on the models of sampled paths",
]

STATES = ("pending", "double-spend", "redeemed")
EARLIER = "2029-01-02 03:04:05+00:00"


class State:
    """Vouchers in any state, with blinding material for any of their steps
    and tokens from any earlier steps."""

    def __init__(self, ctx, vouchers, tokens, old):
        self.ctx = ctx
        self.nv = vouchers
        w = self.w = Wallet(ctx)
        self.names = [voucher_name(i).decode() for i in range(vouchers)]
        self.there, self.state, self.counter, self.count, self.nocount, self.seq, self.expected = ([] for _ in range(7))
        for i, v in enumerate(self.names):
            there = ctx.bool("voucher%d" % i)
            state = sqlsym.sym_text(ctx, "state%d" % i, STATES)
            counter = ctx.int("counter%d" % i, 0, 1 << 40)
            nocount = ctx.bool("no count %d" % i)
            count = ctx.int("count%d" % i, 0, 1 << 40)
            seq = ctx.int("sequestered%d" % i, 0, 1 << 40)
            expected = ctx.int("expected%d" % i, 1, 1 << 40)
            redeemed = self.is_state(state, "redeemed")
            ctx.assume(Implies(redeemed, Not(nocount)))
            w.put(
                "vouchers",
                there,
                number=v,
                created=EARLIER,
                state=state,
                finished=EARLIER,
                token_count=null_if(ctx, nocount, count),
                counter=counter,
                expected_tokens=expected,
                sequestered_count=seq,
            )
            for lst, x in zip(
                (self.there, self.state, self.counter, self.count, self.nocount, self.seq, self.expected),
                (there, state, counter, count, nocount, seq, expected),
            ):
                lst.append(x)
        # blinding material
        self.material = []
        for j in range(tokens):
            there = ctx.bool("material%d" % j)
            vi = ctx.int("material voucher%d" % j, 0, vouchers - 1)
            counter = ctx.int("material step%d" % j, 0, 1 << 40)
            voucher = self.names[0]
            for i in range(vouchers):
                ctx.assume(Implies(And(there, vi == i), self.there[i]))
            voucher = text_of(ctx, vi, self.names)
            w.put("tokens", there, text=token_name(100 + j).decode(), voucher=voucher, counter=counter)
            self.material.append((there, vi, counter))
        # tokens of earlier steps
        self.old = []
        for j in range(old):
            there = ctx.bool("old%d" % j)
            w.put("redemption-groups", there, rowid=j + 1, voucher=self.names[0], spendable=ctx.int("spendable%d" % j, 0, 1), public_key="old")
            w.put("unblinded-tokens", there, token=token_name(200 + j).decode(), redemption_group=j + 1)
            self.old.append(there)
        self.before = w.ready()

    def is_state(self, s, name):
        if self.ctx.concrete:
            return s == name
        return B(sqlsym.eq_term(s, name))

    def voucher_row(self, i, **changed):
        cells = dict(
            number=self.names[i],
            created=EARLIER,
            state=self.state[i],
            finished=EARLIER,
            counter=self.counter[i],
            expected_tokens=self.expected[i],
            sequestered_count=self.seq[i],
        )
        cells.update(changed)
        return cells


def text_of(ctx, i, names):
    """names[i] for a symbolic i."""
    if ctx.concrete:
        return names[i]
    t = z3.IntVal(sqlsym.intern(names[-1]))
    for k in range(len(names) - 2, -1, -1):
        t = z3.If(bt(i == k), z3.IntVal(sqlsym.intern(names[k])), t)
    return sqlsym.SymText(t)


def null_if(ctx, null, value):
    if ctx.concrete:
        return None if null else value
    return sqlsym.opt(bt(null), value)


def count_is(after, null, value, **cells):
    """A voucher row with this token count (or none)."""
    return Ite(
        null,
        B(has_row(after, "vouchers", token_count=None, **cells)),
        B(has_row(after, "vouchers", token_count=value, **cells)),
    )


def others_unchanged(s, after, but):
    for j in range(s.nv):
        if j != but:
            s.ctx.check(
                Iff(count_is(after, s.nocount[j], s.count[j], **s.voucher_row(j)), s.there[j]),
                "other vouchers stay as they are",
            )


def same_text(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    return B(sqlsym.eq_term(a, b))


def h_record(ctx, vouchers, tokens, old, n):
    s = State(ctx, vouchers, tokens, old)
    i = ctx.choice("voucher", vouchers + 1)
    k = ctx.choice("how many", n + 1)
    completed = ctx.flag("last step")
    spendable = ctx.flag("spendable key")
    # the last of the new tokens may be one the wallet has already
    again = k > 0 and old > 0 and ctx.flag("repeated token")
    got = [token_name(j).decode() for j in range(k)]
    if again:
        ctx.assume(s.old[0])
        got[-1] = token_name(200).decode()
    name = voucher_name(i)
    if i < vouchers:
        ctx.assume(s.is_state(s.state[i], "pending"))
    try:
        s.w.store.insert_unblinded_tokens_for_voucher(
            name, "the key", [UnblindedToken(t.encode("ascii")) for t in got], completed, spendable
        )
    except (ValueError, sqlite3.IntegrityError) as e:
        ctx.cover("refused")
        if i < vouchers and not again:
            ctx.check(Not(s.there[i]), "only an unknown voucher or a repeated token is refused")
        after = s.w.state()
        ctx.check(no_change(s.before, after), "a refused step changes nothing")
        for c in s.w.commits:
            ctx.check(mkbool(same_state(c, s.before, temp=False)), "a refused step saves nothing")
        return
    ctx.cover("recorded")
    ctx.check(i < vouchers, "an unknown voucher is refused")
    ctx.check(s.there[i], "an unknown voucher is refused")
    ctx.check(not again, "a token is recorded once")
    after = s.w.state()
    s.w.check_atomic(s.before, after)
    # the group: one more, with the key and usability of this step
    nb, na = (sqlsym.count_rows(x, "redemption-groups") for x in (s.before, after))
    ctx.check(na == nb + 1, "one new group")
    old_groups = s.before["redemption-groups"].rows
    new = [r for r in after["redemption-groups"].rows]
    col = after["redemption-groups"].colnames()
    fresh = []
    for r in new:
        g = dict(zip(col, r.v))
        is_old = Or(*[And(B(o.g), B(sqlsym.eq_term(dict(zip(col, o.v))["rowid"], g["rowid"]))) for o in old_groups]) if old_groups else B(sqlsym.FALSE)
        fresh.append((And(B(r.g), Not(is_old)), g))
    ctx.check(Sum(Ite(c, 1, 0) for c, _ in fresh) == 1, "the group has a number of its own")
    for c, g in fresh:
        ok = And(
            same_text(g["voucher"], name.decode()),
            same_text(g["public-key"], "the key"),
            B(sqlsym.eq_term(g["spendable"], int(spendable))),
        )
        ctx.check(Implies(c, ok), "the group is of this voucher, key and usability")
        for t in got:
            ctx.check(
                Implies(c, B(has_row(after, "unblinded-tokens", token=t, redemption_group=g["rowid"]))),
                "every token is stored, in the group of its step",
            )
    for j, there in enumerate(s.old):
        ctx.check(
            Iff(there, B(has_row(after, "unblinded-tokens", token=token_name(200 + j).decode(), redemption_group=j + 1))),
            "earlier tokens stay",
        )
    tb, ta = (sqlsym.count_rows(x, "unblinded-tokens") for x in (s.before, after))
    ctx.check(ta == tb + k, "no other tokens")
    # the voucher
    base = Ite(s.nocount[i], 0, s.count[i])
    row = s.voucher_row(
        i,
        state="redeemed" if completed else "pending",
        counter=s.counter[i] + 1,
        sequestered_count=s.seq[i] + (0 if spendable else k),
        finished=NOW.isoformat(" "),
    )
    ctx.check(
        B(has_row(after, "vouchers", token_count=base + (k if spendable else 0), **row)),
        "the voucher advances by one step, counts the tokens, and is redeemed exactly at the last step",
    )
    others_unchanged(s, after, i)
    vb, va = (sqlsym.count_rows(x, "vouchers") for x in (s.before, after))
    ctx.check(vb == va, "no voucher appears or disappears")
    # blinding material of this step is done with; all else stays
    for j, (there, vi, counter) in enumerate(s.material):
        gone = And(vi == i, counter == s.counter[i])
        ctx.check(
            Iff(
                B(has_row(after, "tokens", text=token_name(100 + j).decode(), counter=counter, voucher=text_of(ctx, vi, s.names))),
                And(there, Not(gone)),
            ),
            "exactly the finished step's blinding material goes",
        )
    ctx.check(no_change(s.before, after, "vouchers", "redemption-groups", "unblinded-tokens", "tokens"), "nothing else changes")
    ctx.observe("rows", [na, ta, va, sqlsym.count_rows(after, "tokens")])


def h_double_spent(ctx, vouchers, tokens, old):
    s = State(ctx, vouchers, tokens, old)
    i = ctx.choice("voucher", vouchers + 1)
    try:
        s.w.store.mark_voucher_double_spent(voucher_name(i))
    except ValueError:
        ctx.cover("refused")
        if i < vouchers:
            ctx.check(
                Or(Not(s.there[i]), Not(s.is_state(s.state[i], "pending"))),
                "a pending voucher can become double-spent",
            )
        after = s.w.state()
        ctx.check(no_change(s.before, after), "a refused transition changes nothing")
        return
    ctx.cover("marked")
    ctx.check(i < vouchers, "an unknown voucher is refused")
    ctx.check(And(s.there[i], s.is_state(s.state[i], "pending")), "only a pending voucher becomes double-spent")
    after = s.w.state()
    s.w.check_atomic(s.before, after)
    row = s.voucher_row(i, state="double-spend", finished=NOW.isoformat(" "))
    ctx.check(count_is(after, s.nocount[i], s.count[i], **row), "the voucher is double-spent")
    others_unchanged(s, after, i)
    ctx.check(sqlsym.count_rows(s.before, "vouchers") == sqlsym.count_rows(after, "vouchers"), "no voucher appears or disappears")
    ctx.check(no_change(s.before, after, "vouchers"), "nothing else changes")


def h_add(ctx, vouchers, tokens, old, n):
    """Blinding material is made once per step."""
    s = State(ctx, vouchers, tokens, old)
    i = ctx.choice("voucher", vouchers + 1)
    name = voucher_name(i).decode()
    counter = ctx.int("step", 0, 1 << 40)
    expected = ctx.int("expected", 1, 1 << 40)
    k = 1 + ctx.choice("how many", n)
    fresh = [RandomToken(token_name(j)) for j in range(k)]
    asked = []

    def get_tokens():
        asked.append(1)
        return fresh

    mine = [And(there, vi == i, c == counter) for there, vi, c in s.material]
    got = s.w.store.add(name.encode("ascii"), expected, counter, get_tokens)
    values = [t.token_value for t in got]
    after = s.w.state()
    s.w.check_atomic(s.before, after)
    if not asked:
        ctx.cover("material exists")
        for j, m in enumerate(mine):
            ctx.check(Iff(m, token_name(100 + j) in values), "the material is the step's own, all of it")
        ctx.check(len(values) == len(set(values)), "each once")
        ctx.check(Sum(Ite(m, 1, 0) for m in mine) == len(values), "and nothing else")
        ctx.check(len(values) > 0, "no material is not taken for material")
        ctx.check(no_change(s.before, after), "asking again changes nothing")
        return
    ctx.cover("new material")
    ctx.check(Not(Or(*mine)), "material is generated only for a step that has none")
    ctx.check(values == [t.token_value for t in fresh], "the generated material is returned")
    for t in fresh:
        ctx.check(
            B(has_row(after, "tokens", text=t.token_value.decode(), voucher=name, counter=counter)),
            "the generated material is kept under its voucher and step",
        )
    for j, (there, vi, c) in enumerate(s.material):
        ctx.check(
            Iff(
                there,
                B(has_row(after, "tokens", text=token_name(100 + j).decode(), counter=c, voucher=text_of(ctx, vi, s.names))),
            ),
            "other material stays",
        )
    ctx.check(
        sqlsym.count_rows(after, "tokens") == sqlsym.count_rows(s.before, "tokens") + k, "no other material appears"
    )
    others_unchanged(s, after, i)
    new_row = dict(number=name, expected_tokens=expected, counter=0, state="pending", token_count=None, sequestered_count=0, created=NOW.isoformat(" "))
    if i < vouchers:
        ctx.check(
            Ite(
                s.there[i],
                count_is(after, s.nocount[i], s.count[i], **s.voucher_row(i)),
                B(has_row(after, "vouchers", **new_row)),
            ),
            "a known voucher stays as it is, a new one starts at its first step",
        )
        was = Ite(s.there[i], 1, 0)
    else:
        ctx.check(B(has_row(after, "vouchers", **new_row)), "a new voucher starts at its first step")
        was = 0
    ctx.check(
        sqlsym.count_rows(after, "vouchers") == sqlsym.count_rows(s.before, "vouchers") + (1 - was),
        "no other voucher appears",
    )
    ctx.check(no_change(s.before, after, "vouchers", "tokens"), "nothing else changes")


def h_read(ctx, vouchers, many):
    """What the wallet says of its vouchers is what it has recorded."""
    s = State(ctx, vouchers, 0, 0)
    if many:
        found = s.w.store.list()
        ctx.cover("listed")
        ctx.check(len({v.number for v in found}) == len(found), "each voucher once")
        got = {v.number.decode(): v for v in found}
        for i, name in enumerate(s.names):
            ctx.check(Iff(s.there[i], name in got), "all vouchers are listed")
    else:
        i = ctx.choice("voucher", vouchers + 1)
        try:
            v = s.w.store.get(voucher_name(i))
        except KeyError:
            ctx.cover("unknown")
            if i < vouchers:
                ctx.check(Not(s.there[i]), "a known voucher is found")
            return
        ctx.cover("found")
        ctx.check(i < vouchers, "an unknown voucher is not found")
        ctx.check(s.there[i], "an unknown voucher is not found")
        got = {s.names[i]: v}
    for name, v in got.items():
        i = s.names.index(name)
        ctx.check(v.number.decode() == name, "the voucher asked for")
        ctx.check(v.expected_tokens == s.expected[i], "its size")
        ctx.check(v.created.isoformat(" ") == EARLIER, "its age")
        st = v.state
        if isinstance(st, Pending):
            ctx.cover("pending")
            ctx.check(s.is_state(s.state[i], "pending"), "it is pending")
            ctx.check(st.counter == s.counter[i], "its progress")
            ctx.check(st.should_start_redemption() and st.start_at_counter() == s.counter[i], "redemption goes on where it was")
        else:
            ctx.check(not st.should_start_redemption(), "a finished voucher is not redeemed again")
            ctx.check(st.finished.isoformat(" ") == EARLIER, "when it was finished")
            if isinstance(st, Redeemed):
                ctx.cover("redeemed")
                ctx.check(s.is_state(s.state[i], "redeemed"), "it is redeemed")
                ctx.check(st.token_count == s.count[i], "its count of tokens")
            else:
                ctx.check(isinstance(st, DoubleSpend), "no other state is stored")
                ctx.check(s.is_state(s.state[i], "double-spend"), "it is double-spent")
    ctx.check(no_change(s.before, s.w.state()), "looking changes nothing")


def h_fault(ctx, op):
    """Any statement fails: nothing has changed."""
    s = State(ctx, 1, 1, 1)
    k = ctx.choice("failing", 8)
    s.w.fail_at(k)
    try:
        if op == "record":
            s.w.store.insert_unblinded_tokens_for_voucher(
                voucher_name(0), "key", [UnblindedToken(token_name(j)) for j in range(2)], ctx.flag("last"), True
            )
        elif op == "double":
            s.w.store.mark_voucher_double_spent(voucher_name(0))
        else:
            s.w.store.add(voucher_name(0), 5, ctx.int("step", 0, 3), lambda: [RandomToken(token_name(j)) for j in range(2)])
    except (sqlite3.OperationalError, ValueError):
        ctx.cover("failed")
    else:
        s.w.no_faults()
        ctx.check(s.w.left >= 0, "a failing statement is not ignored")
        return
    s.w.no_faults()
    ctx.check(no_change(s.before, s.w.state()), "a failed operation changes nothing")
    for c in s.w.commits:
        ctx.check(mkbool(same_state(c, s.before, temp=False)), "a failed operation saves nothing")


HARNESSES = []


def add(fn, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(
        H(fn, params=p, bounds="an arbitrary state with up to " + ", ".join("%s %s" % (v, k) for k, v in p.items()), covers=covers, tiers=tiers)
    )


Q = ("quick",)
T = ("thorough",)
add(h_record, ["recorded", "refused"], Q, vouchers=2, tokens=1, old=2, n=2)
add(h_record, ["recorded", "refused"], T, vouchers=3, tokens=2, old=3, n=4)
add(h_double_spent, ["marked", "refused"], Q, vouchers=2, tokens=1, old=1)
add(h_double_spent, ["marked", "refused"], T, vouchers=4, tokens=2, old=2)
add(h_add, ["material exists", "new material"], Q, vouchers=2, tokens=2, old=1, n=2)
add(h_add, ["material exists", "new material"], T, vouchers=3, tokens=4, old=1, n=3)
add(h_read, ["found", "unknown", "pending", "redeemed"], vouchers=2, many=False)
add(h_read, ["listed", "pending", "redeemed"], vouchers=2, many=True)
for op in ("record", "double", "add"):
    add(h_fault, ["failed"], op=op)
