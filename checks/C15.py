"""The record of maintenance spending is exact."""
import sqlite3
from datetime import timezone

from symx import timesym
from symx.runner import H
from symx.values import *

from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.replicate import with_replication
from checks.wallet_common import *

PROPERTY = "C15"
TITLE = "the record of maintenance spending is exact"
ASSUMPTIONS = [
    "when several runs finish at the very same microsecond any of them may be reported",
    "the clock shows times between 2001 and 2106, otherwise moving freely (also backwards)",
    "the price of a set of sizes is as C01 decides it; the pass value is 1000 here",
    "SQL semantics: symx/sqlsym.py, validated against SQLite on the models of sampled paths; times compare like their texts",
]
PV = 1000
LO, HI = 10 ** 15, 2 ** 32 * 10 ** 6


class World:
    def __init__(self, ctx, rows):
        self.ctx = ctx
        self.ticks = 0
        self.w = Wallet(ctx, pass_value=PV, now=self.now)
        if not ctx.concrete:
            timesym.install(self.w.patcher)
        self.runs = []  # (exists, started, count, finished or None, finished?)
        for i in range(rows):
            there = ctx.bool("row%d" % i)
            st = ctx.int("row%d.started" % i, LO, HI)
            fi = ctx.int("row%d.finished" % i, LO, HI)
            done = ctx.bool("row%d.done" % i)
            n = ctx.int("row%d.count" % i, 0, 2 ** 40)
            t = lambda us: timesym.time_of(ctx, us, timezone.utc)
            if ctx.concrete:
                finished = t(fi) if done else None
            else:
                finished = sqlsym.opt(bt(Not(done)), sqlsym.adapt(t(fi)))
            self.w.put("lease-maintenance-spending", there, id=i + 1, started=t(st), finished=finished, count=n)
            self.runs.append([there, st, n, fi, done])
        self.before = self.w.ready()
        self.last_now = None

    def now(self):
        us = self.ctx.int("clock%d" % self.ticks, LO, HI)
        self.ticks += 1
        self.last_now = us
        return timesym.time_of(self.ctx, us, timezone.utc)

    @property
    def store(self):
        return self.w.store

    def restart(self):
        """Another process opens the same database."""
        conn = self.w.conn
        # temporary tables end with their connection
        for t in self.w.state().values():
            if t.temp:
                conn.execute("DROP TABLE [%s]" % t.name)
        conn.commit()
        self.w.store = VoucherStore.from_connection(PV, self.now, with_replication(conn, False))

    def check_report(self, when):
        ctx = self.ctx
        got = self.store.get_latest_lease_maintenance_activity()
        done = [And(r[0], r[4]) for r in self.runs]
        if got is None:
            ctx.cover("no report")
            ctx.check(Not(Or(*done)), "a finished run is reported: " + when)
            return
        ctx.cover("report")
        st, fi = timesym.us(got.started), timesym.us(got.finished)
        options = []
        for r, d in zip(self.runs, done):
            newest = And(*[Implies(e, o[3] <= r[3]) for o, e in zip(self.runs, done)])
            options.append(And(d, newest, st == r[1], fi == r[3], got.passes_required == r[2]))
        ctx.check(Or(*options), "the report is exactly the run that finished last: " + when)
        return got


def sizes_of(ctx, name, n):
    return [ctx.int("%s.size%d" % (name, i), 0, 2 ** 50) for i in range(n)]


def price(sizes):
    return Sum([ceil_div(s, PV) for s in sizes])


def history(ctx, rows, runs, steps, observations=2):
    """From any record, several runs, overlapping or not, each observing and
    then finishing or being abandoned, with restarts between."""
    w = World(ctx, rows)
    w.check_report("at the start")
    live = []
    nobs = 0
    for i in range(steps):
        can = ["observe%d" % k for k in range(len(live)) if nobs < observations]
        can += ["finish%d" % k for k in range(len(live))]
        if len(w.runs) - rows < runs:
            can.append("start")
        if live:
            can.append("restart")
        if not can:
            break
        what = ctx.pick("step%d" % i, can)
        before = w.w.state()
        if what == "start":
            m = w.store.start_lease_maintenance()
            r = [True, w.last_now, 0, 0, False]
            w.runs.append(r)
            live.append((m, r))
        elif what == "restart":
            # runs in progress are abandoned
            live = []
            w.restart()
            ctx.cover("abandoned")
        elif what.startswith("observe"):
            m, r = live[int(what[7:])]
            sizes = sizes_of(ctx, "step%d" % i, ctx.choice("step%d.shares" % i, 3))
            m.observe(sizes)
            r[2] = r[2] + price(sizes)
            nobs += 1
        else:
            m, r = live.pop(int(what[6:]))
            m.finish()
            r[3], r[4] = w.last_now, True
            ctx.cover("finished")
        w.check_report("after " + what)


def fault(ctx):
    """A step that fails changes nothing; the run goes on as if it had not
    been tried."""
    w = World(ctx, 1)
    what = ctx.pick("step", ["start", "observe", "finish"])
    if what != "start":
        m = w.store.start_lease_maintenance()
        r = [True, w.last_now, 0, 0, False]
        w.runs.append(r)
    before = w.w.ready()
    w.w.fail_at(ctx.choice("statement", 4))
    sizes = sizes_of(ctx, "observed", 1)
    try:
        if what == "start":
            w.store.start_lease_maintenance()
        elif what == "observe":
            m.observe(sizes)
        else:
            m.finish()
    except sqlite3.OperationalError:
        w.w.no_faults()
        ctx.cover("failed")
        ctx.check(no_change(before, w.w.state()), "a step that fails changes nothing")
        w.check_report("after a failure")
        if what == "observe":
            m.observe(sizes)
            r[2] = r[2] + price(sizes)
            m.finish()
            r[3], r[4] = w.last_now, True
            w.check_report("after trying again")
        if what == "start":
            m = w.store.start_lease_maintenance()
            w.runs.append([True, w.last_now, 0, 0, False])
            w.check_report("after trying again")
    else:
        w.w.no_faults()
        w.w.check_atomic(before, w.w.state())
        ctx.cover("succeeded")


def empty(ctx):
    w = World(ctx, 0)
    ctx.check(w.store.get_latest_lease_maintenance_activity() is None, "there is no report before any run has finished")
    m = w.store.start_lease_maintenance()
    m.observe(sizes_of(ctx, "observed", 2))
    ctx.check(w.store.get_latest_lease_maintenance_activity() is None, "a run in progress is not reported")
    ctx.cover("empty")


HARNESSES = [
    H(empty, "empty", bounds="an empty record", covers=["empty"]),
    H(history, "one run", {"rows": 2, "runs": 1, "steps": 3}, bounds="any record of up to 2 runs, then 3 steps of 1 run", covers=["report", "no report", "finished", "abandoned"]),
    H(history, "two runs", {"rows": 1, "runs": 2, "steps": 4, "observations": 1}, bounds="any record of up to 1 run, then 4 steps of 2 runs", covers=["report", "finished", "abandoned"]),
    H(fault, "fault", bounds="a failure at each statement", covers=["failed", "succeeded"]),
    H(history, "deep", {"rows": 1, "runs": 2, "steps": 5}, bounds="any record of up to 1 run, then 5 steps of 2 runs", covers=["report", "finished", "abandoned"], tiers=("thorough",), budget_s=850),
]
