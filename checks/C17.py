"""The replica can always rebuild the wallet, at every crash point."""
from symx.runner import H
from symx.values import *

from checks.replica_common import *

PROPERTY = "C17"
TITLE = "the replica can always rebuild the wallet, at every crash point"
ASSUMPTIONS = [
    "an upload or unlink either takes effect or not; the directory lists what was linked",
    "what CBOR encodes it decodes (C27); the database keeps what was committed",
    "the snapshot policy may decide anything at any time (C26 decides it)",
]

PREFIXES = [
    [],
    ["ok"],
    ["ok", "change!", "ok"],
    ["ok", "change!", "done"],
    ["change!", "done"],
    ["ok", "change", "change!", "ok", "change!"],
]
ACTIONS = ["change", "change!", "restart", "ok", "fail", "lost", "crash", "done"]


def act(w, what):
    if what == "change":
        w.change(False)
    elif what == "change!":
        w.change(True)
    elif what == "restart":
        w.crash()
    else:
        w.grid.decide(what)
        if what in ("crash", "done"):
            w.crash()


def check(w, when):
    ctx = w.ctx
    ctx.check(not w.grid.broken, "only the replica directory is touched", w.grid.broken)
    ctx.check(w.value(w.conn) == w.digest, "the wallet itself has every change")
    conn = w.rebuilt()
    if conn is None:
        return
    ctx.cover("a snapshot is there")
    ctx.check(w.value(conn) == w.digest, "the replica and the local events give every change, once and in order", when)


def h_steps(ctx, start, steps):
    ctx.opaque_text = True
    w = World(ctx)
    w.start()
    for a in PREFIXES[start]:
        if a in ("ok", "done") and not w.grid.pending:
            ctx.stop()
        act(w, a)
    check(w, "after the prefix")
    for i in range(steps):
        if w.grid.pending:
            a = ACTIONS[ctx.choice("step%d" % i, len(ACTIONS))]
        else:
            a = ACTIONS[ctx.choice("step%d" % i, 3)]
        ctx.cover(a)
        if w.grid.pending and w.grid.pending[0].kind == "unlink":
            ctx.cover("a stream is discarded")
        act(w, a)
        check(w, i)


BOUNDS = "the starting history %s, then %d further events, each a change (important or not, any value), a restart, or the pending grid operation succeeding, failing, being done but reported failed, or ending in a crash before or after it took effect; any snapshot policy"
HARNESSES = []
for start, prefix in enumerate(PREFIXES):
    COVERS = ["a snapshot is there"] + ACTIONS
    if start in (2, 3):
        COVERS.append("a stream is discarded")
    HARNESSES += [
        H(h_steps, "quick", {"start": start, "steps": 3}, BOUNDS % (prefix, 3), COVERS, tiers=("quick",)),
        H(h_steps, "deep", {"start": start, "steps": 4}, BOUNDS % (prefix, 4), COVERS, tiers=("thorough",), budget_s=850),
    ]
