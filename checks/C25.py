"""Opening a wallet written by an earlier version."""
import os
import sqlite3
import time
from datetime import datetime, timezone

import cbor2

from symx.runner import H
from symx.values import *

from _zkapauthorizer import schema as S
from _zkapauthorizer.model import (
    DoubleSpend,
    Pending,
    RandomToken,
    Redeemed,
    VoucherStore,
)
from _zkapauthorizer.replicate import with_replication

from checks.wallet_common import *
from symx.sqlsym import SymText

PROPERTY = "C25"
TITLE = "upgrading an old wallet keeps every voucher and every spendable token"
ASSUMPTIONS = [
    "the layouts of the earlier versions and what those versions wrote into them are written down in the check (they are facts of the past, not read from the code)",
    "an interruption (a crash or an error) comes between two statements: the statement fails and what is not committed is rolled back",
    "the fraction of a second of a converted time is not kept, and the time itself was local time in one of three time zones",
    "which redemption group an old token belongs to is not preserved information; it only has to be a spendable one",
]

# -- the layouts --------------------------------------------------------------------

TABLES = {
    1: [
        'CREATE TABLE [vouchers] ([number] text, [created] text, [state] text DEFAULT "pending", [finished] text DEFAULT NULL, [token-count] num DEFAULT NULL, PRIMARY KEY([number]))',
        "CREATE TABLE [tokens] ([text] text, [voucher] text, PRIMARY KEY([text]) FOREIGN KEY([voucher]) REFERENCES [vouchers]([number]))",
        "CREATE TABLE [unblinded-tokens] ([token] text, PRIMARY KEY([token]))",
        "CREATE TABLE [lease-maintenance-spending] ([id] integer, [started] text, [finished] text, [count] integer, PRIMARY KEY([id]))",
    ],
    2: ["ALTER TABLE [vouchers] ADD COLUMN [public-key] text"],
    3: ["ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0"],
    4: [
        "ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768",
    ],
    5: [
        "CREATE TABLE [invalid-unblinded-tokens] ([token] text, [reason] text, PRIMARY KEY([token]))"
    ],
    6: [
        "CREATE TABLE [redemption-groups] ([rowid] INTEGER PRIMARY KEY, [voucher] text, [spendable] integer, [public-key] text)",
        "ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0",
        "ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1",
    ],
    7: [
        "CREATE TABLE [event-stream] ([sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT, [statement] TEXT, [important] BOOL)"
    ],
    8: [],
    9: ["ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'"],
    10: [],
}
LATEST = max(TABLES)

ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-05:30"]
NAIVE = ["2021-03-04 05:06:07", "2020-07-31 23:59:59.250000", "2019-01-01 00:00:00"]
AWARE = ["2021-03-04 05:06:07+00:00", "2020-07-31 23:59:59.250000+00:00", "2019-01-01 00:00:00+00:00"]


def zone(ctx, name):
    old = os.environ.get("TZ")

    def restore():
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()

    ctx.cleanup(restore)
    os.environ["TZ"] = name
    time.tzset()


def meant(text):
    """The time some text in an old wallet stands for."""
    t = datetime.fromisoformat(text)
    if t.tzinfo is None:
        t = t.replace(microsecond=0).astimezone(timezone.utc)
    return t


class Old:
    """A wallet of an earlier version with any content."""

    def __init__(self, ctx, version, vouchers, tokens, cases=3):
        self.ctx = ctx
        self.version = version
        case = ctx.choice("case", cases)
        zone(ctx, ZONES[case])
        self.w = w = Wallet(ctx, store=False)
        w.conn.execute("CREATE TABLE [version] AS SELECT 0 AS [version]")
        for v in range(1, version + 1):
            for sql in TABLES[v]:
                w.conn.execute(sql)
        if ctx.concrete:
            w.conn.execute("UPDATE [version] SET [version] = ?", (version,))
            w.conn.commit()
        else:
            t = w.conn.db.find("version")
            t.rows = [Row(r.g, r.id, (version,)) for r in t.rows]
        self.vouchers = [self.voucher(i, case) for i in range(vouchers)]
        self.groups = []
        if version >= 6:
            for i in range(2):
                spendable = ctx.bool("group%d.spendable" % i)
                self.groups.append(spendable)
                w.put(
                    "redemption-groups",
                    rowid=i + 1,
                    voucher=voucher_name(i % max(1, vouchers)).decode("ascii"),
                    spendable=Ite(spendable, 1, 0),
                    public_key=PUBLIC_KEY,
                )
        # unblinded tokens come from redeeming vouchers
        some = False
        for (here, state, counter) in [(v["here"], v["state"], v["counter"]) for v in self.vouchers]:
            some = Or(some, And(here, Or(state == "redeemed", counter > 0)))
        self.tokens = []
        for i in range(tokens):
            here = ctx.bool("token%d" % i)
            if version < 6:
                ctx.assume(Implies(here, some))
            t = {"name": token_name(i).decode("ascii"), "here": here, "spendable": True}
            cells = {}
            if version >= 6:
                g = i % 2
                t["spendable"] = self.groups[g]
                cells["redemption_group"] = g + 1
            w.put("unblinded-tokens", here, token=t["name"], **cells)
            self.tokens.append(t)
        self.invalid = []
        if version >= 5:
            here = ctx.bool("invalid")
            w.put("invalid-unblinded-tokens", here, token=token_name(50).decode("ascii"), reason="spent already")
            self.invalid.append((token_name(50).decode("ascii"), here))
        self.random = []
        for i in range(2):
            here = And(ctx.bool("random%d" % i), self.vouchers[0]["here"])
            cells = {}
            counter = 0
            if version >= 4:
                counter = ctx.int("random%d.counter" % i, 0, 16)
                cells["counter"] = counter
            text = token_name(60 + i).decode("ascii")
            w.put("tokens", here, text=text, voucher=voucher_name(0).decode("ascii"), **cells)
            self.random.append((text, here, counter))
        times = NAIVE if version < 8 else AWARE
        self.activity = {
            "here": ctx.bool("activity"),
            "started": times[case],
            "finished": times[(case + 1) % 3],
            "open": ctx.bool("activity.open"),
            "count": ctx.int("activity.count", 0, 1 << 62),
        }
        w.put(
            "lease-maintenance-spending",
            self.activity["here"],
            id=1,
            started=self.activity["started"],
            finished=null_if(ctx, self.activity["open"], self.activity["finished"]),
            count=self.activity["count"],
        )
        self.events = []
        if version >= 7:
            n = ctx.int("events", 0, 2)
            for i in range(2):
                important = ctx.bool("event%d.important" % i)
                cells = {}
                if version >= 9:
                    cells["serialized_arguments"] = cbor2.dumps(["x", i])
                w.put(
                    "event-stream",
                    n > i,
                    sequence_number=5 + i,
                    statement="DELETE FROM [x] WHERE 1 = %d" % i,
                    important=Ite(important, 1, 0),
                    **cells,
                )
                self.events.append((5 + i, n > i, "DELETE FROM [x] WHERE 1 = %d" % i, important, cells.get("serialized_arguments", b"\x80")))
        self.before = w.ready()

    def voucher(self, i, case):
        ctx = self.ctx
        version = self.version
        times = NAIVE if version < 8 else AWARE
        # the finishing times were not converted with the others
        ftimes = NAIVE if version < 8 or version < 10 and i == 0 else times
        v = {
            "number": voucher_name(i),
            "here": ctx.bool("voucher%d" % i),
            "state": ["pending", "double-spend", "redeemed"][ctx.choice("voucher%d.state" % i, 3)],
            "created": times[(case + i) % 3],
            "finished": ftimes[(case + i + 1) % 3],
            "count": ctx.int("voucher%d.count" % i, 0, 1 << 40),
            "counter": 0,
        }
        cells = dict(number=v["number"].decode("ascii"), created=v["created"], state=v["state"])
        if v["state"] != "pending":
            cells["finished"] = v["finished"]
        if v["state"] == "redeemed":
            cells["token_count"] = v["count"]
            if version >= 2:
                cells["public_key"] = PUBLIC_KEY
        if version >= 3:
            v["counter"] = ctx.int("voucher%d.counter" % i, 0, 16)
            cells["counter"] = v["counter"]
        if version >= 4:
            v["expected"] = ctx.int("voucher%d.expected" % i, 1, 1 << 40)
            cells["expected_tokens"] = v["expected"]
        if version >= 6:
            v["sequestered"] = ctx.int("voucher%d.sequestered" % i, 0, 1 << 40)
            cells["sequestered_count"] = v["sequestered"]
        self.w.put("vouchers", v["here"], **cells)
        return v

    def open(self):
        conn = with_replication(self.w.conn, False)
        return VoucherStore.from_connection(1000, lambda: NOW, conn)


def null_if(ctx, null, value):
    if ctx.concrete:
        return None if null else value
    return sqlsym.opt(bt(null), value)


def persistent(state):
    return {k: t for k, t in state.items() if not t.temp and k != "sqlite_sequence"}


def upgrade(ctx, version, vouchers=2, tokens=2):
    old = Old(ctx, version, vouchers, tokens)
    w = old.w
    store = old.open()
    after = persistent(w.state())
    ctx.check(
        B(has_row(after, "version", version=LATEST_VERSION())),
        "the wallet has the current version",
    )
    # nothing is lost and nothing comes back: tokens
    for t in old.tokens:
        there = B(has_row(after, "unblinded-tokens", token=t["name"]))
        ctx.check(same(there, t["here"]), "exactly the unspent tokens are kept")
    for text, here in old.invalid:
        ctx.check(
            same(B(has_row(after, "invalid-unblinded-tokens", token=text, reason="spent already")), here),
            "invalid tokens stay invalid",
        )
        ctx.check(
            Not(B(has_row(after, "unblinded-tokens", token=text))),
            "invalid tokens do not become available",
        )
    for text, here, counter in old.random:
        ctx.check(
            same(
                B(has_row(after, "tokens", text=text, voucher=voucher_name(0).decode("ascii"), counter=counter)),
                here,
            ),
            "the random tokens of an unfinished redemption are kept",
        )
    for seq, here, statement, important, args in old.events:
        ctx.check(
            same(
                B(
                    has_row(
                        after,
                        "event-stream",
                        sequence_number=seq,
                        statement=statement,
                        important=Ite(important, 1, 0),
                        serialized_arguments=args,
                    )
                ),
                here,
            ),
            "recorded changes are kept",
        )
    # tokens that could be spent can be spent
    able = 0
    for t in old.tokens:
        able = able + Ite(And(t["here"], t["spendable"]), 1, 0)
    ctx.check(store.count_unblinded_tokens() == able, "exactly the spendable tokens are spendable")
    # vouchers, through the wallet
    w.no_faults()
    listed = {v.number: v for v in store.list()}
    for v in old.vouchers:
        got = listed.pop(v["number"], None)
        ctx.check(same(got is not None, v["here"]), "exactly the vouchers of before are listed")
        if got is None:
            continue
        ctx.cover(v["state"])
        ctx.check(got.created == meant(v["created"]), "a voucher keeps the time it was added", detail=got.created)
        if "expected" in v:
            ctx.check(got.expected_tokens == v["expected"], "a voucher keeps the number of tokens it is for")
        if v["state"] == "pending":
            ctx.check(
                type(got.state) is Pending and got.state.counter == v["counter"],
                "a pending voucher is as far as it was",
            )
        elif v["state"] == "redeemed":
            ok = type(got.state) is Redeemed
            ctx.check(ok, "a redeemed voucher stays redeemed")
            if ok:
                ctx.check(got.state.token_count == v["count"], "a redeemed voucher keeps its number of tokens")
                ctx.check(got.state.finished == meant(v["finished"]), "a redeemed voucher keeps its time", detail=repr(got.state))
        else:
            ok = type(got.state) is DoubleSpend
            ctx.check(ok, "a double-spent voucher stays that")
            if ok:
                ctx.check(got.state.finished == meant(v["finished"]), "a double-spent voucher keeps its time", detail=repr(got.state))
    ctx.check(not listed, "no voucher appears")
    for v in old.vouchers:
        if "sequestered" in v:
            ctx.check(
                Implies(
                    v["here"],
                    B(has_row(after, "vouchers", number=v["number"].decode("ascii"), sequestered_count=v["sequestered"])),
                ),
                "a voucher keeps its number of held tokens",
            )
    a = old.activity
    got = store.get_latest_lease_maintenance_activity()
    ctx.check(
        same(got is not None, And(a["here"], Not(a["open"]))), "finished lease maintenance is kept"
    )
    if got is not None:
        ctx.check(
            And(got.passes_required == a["count"], got.started == meant(a["started"]), got.finished == meant(a["finished"])),
            "lease maintenance keeps its numbers",
            detail=repr(got),
        )


def spend(ctx, version):
    """The tokens of an upgraded wallet can be taken."""
    old = Old(ctx, version, 1, 2)
    for t in old.tokens:
        ctx.assume(t["here"])
    store = old.open()
    n = 0
    for t in old.tokens:
        n = n + Ite(t["spendable"], 1, 0)
    if ctx.concrete or not is_sym(n):
        want = n
    else:
        want = 2 if bool(n == 2) else 1 if bool(n == 1) else 0
    if want:
        taken = store.get_unblinded_tokens(want)
        names = sorted(t.unblinded_token.decode("ascii") for t in taken)
        ctx.check(len(names) == want and len(set(names)) == want, "as many tokens as there are can be taken")
        for t in old.tokens:
            ctx.check(same(t["name"] in names, t["spendable"]), "the spendable tokens are what is taken")
        ctx.cover("taken")
    try:
        store.get_unblinded_tokens(1)
    except Exception as e:
        ctx.check(type(e).__name__ == "NotEnoughTokens", "more cannot be taken", detail=repr(e))
    else:
        ctx.check(False, "no more tokens than could be spent before can be taken")


def interrupted(ctx, version):
    """A statement of the upgrade fails."""
    old = Old(ctx, version, 1, 1, 1) if version else Empty(ctx)
    w = old.w
    k = ctx.choice("statement", 60)
    w.fail_at(k)
    done = False
    try:
        store = old.open()
        done = True
    except Exception:
        w.conn.rollback()
    reached = w.left < 0
    w.no_faults()
    if not reached:
        ctx.stop()
    if not done:
        ctx.cover("interrupted")
        ctx.check(
            B(same_state(persistent(w.state()), persistent(old.before))),
            "an interrupted upgrade changes nothing",
        )
        try:
            old.w.conn.rollback()
            again(ctx, old)
        except sqlite3.Error as e:
            ctx.check(False, "a wallet can be opened after an interrupted upgrade", detail=repr(e))


def again(ctx, old):
    # a new process: the temporary tables are gone
    w = old.w
    if ctx.concrete:
        for (n,) in list(w.conn.execute("SELECT name FROM sqlite_temp_master WHERE type = 'table'")):
            w.conn.execute("DROP TABLE temp.[%s]" % n)
    else:
        for n, t in list(w.conn.db.tables.items()):
            if t.temp:
                del w.conn.db.tables[n]
    return old.open()


class Empty:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = Wallet(ctx, store=False)
        self.before = self.w.ready()

    open = Old.open


def fresh(ctx):
    """A new wallet is made in one step, and opening it again changes nothing."""
    old = Empty(ctx)
    store = old.open()
    after = persistent(old.w.state())
    ctx.check(store.list() == [] and store.count_unblinded_tokens() == 0, "a new wallet is empty")
    again(ctx, old)
    ctx.check(B(same_state(persistent(old.w.state()), after)), "opening a wallet again changes nothing")
    ctx.cover("made")


def current(ctx):
    """Opening a wallet which is up to date changes nothing at all."""
    old = Old(ctx, LATEST, 2, 2)
    store = old.open()
    ctx.check(
        B(same_state(persistent(old.w.state()), persistent(old.before))),
        "opening an up-to-date wallet changes nothing",
    )
    ctx.cover("opened")


def LATEST_VERSION():
    """The version the code says it upgrades to."""
    v = 0
    while next(iter(S.get_schema_upgrades(v)), None) is not None:
        v += 1
    return v


def same(a, b):
    return And(Implies(a, b), Implies(b, a))


HARNESSES = (
    [
        H(
            upgrade,
            params={"version": v},
            bounds="2 vouchers in any state, counters, numbers and times; 2 unspent tokens, an invalid one, 2 random tokens, a lease maintenance, 2 recorded changes, each present or not; 3 time zones",
            covers=["pending", "double-spend", "redeemed"],
            timeout_ms=60000,
        )
        for v in range(1, LATEST)
    ]
    + [
        H(
            spend,
            params={"version": v},
            bounds="1 voucher, 2 tokens",
            covers=["taken"],
        )
        for v in (1, 3, 5, 6, 9)
    ]
    + [
        H(
            interrupted,
            params={"version": v},
            bounds="any one of the first 60 statements fails; 1 voucher, 1 token",
            covers=["interrupted"],
        )
        for v in range(0, LATEST)
    ]
    + [
        H(fresh, bounds="one history", covers=["made"]),
        H(current, bounds="as for upgrades", covers=["opened"]),
    ]
)
