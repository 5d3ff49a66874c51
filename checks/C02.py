"""Immutable uploads are accepted only when fully paid for."""
from symx.runner import H
from symx.values import ceil_div

from _zkapauthorizer.storage_common import MorePassesRequired
from checks.server_common import *

PROPERTY = "C02"
TITLE = "immutable uploads are gated by price"
ASSUMPTIONS = [
    "the Tahoe storage backend answers allocate_buckets with some split of the requested shares into already-present, in-progress and newly allocated",
    "pass signatures: each pass is valid or bad in one of the listed ways, made with the real Ristretto library (run concretely)",
    "file system, prometheus histogram: models in symx/symbytes.py and checks/server_common.py; sampled paths re-run on a real StorageServer and real files",
]
KINDS = ["other message", "other key", "garbage"]


def h_allocate(ctx, npasses, nshares, pv, kinds=1):
    w = World(ctx, pv)
    size = ctx.int("size", 0, 8 * pv + 3)
    wanted = set()
    for i in range(nshares):
        st = ctx.pick("share%d" % i, ["absent", "wanted", "wanted and present", "wanted and in progress"])
        if st == "wanted and present":
            w.add_share(i, "immutable", size if not ctx.concrete else size, [(5, b"o" * 32)])
        if st == "wanted and in progress":
            w.add_incoming(i)
        if st != "absent":
            wanted.add(i)
    enc, valid, bad = symbolic_passes(ctx, npasses, allocate_buckets_message(SI), KINDS[:kinds])
    price = len(wanted) * ceil_div(size, pv)
    before = {n: w.leases(n) for n in w.shares}
    try:
        got, writers = w.server.remote_allocate_buckets(
            list(enc), SI, RENEW, CANCEL, set(wanted), size, w.canary
        )
    except MorePassesRequired as e:
        ctx.cover("refused")
        ctx.check(price > len(valid), "refused only when the valid passes do not cover the price")
        ctx.check(e.valid_count == len(valid), "reports the number of valid passes")
        ctx.check(e.required_count == price, "reports the required number of passes")
        ctx.check(set(e.signature_check_failed) == set(bad), "reports the rejected positions")
        ctx.check(not w.calls, "nothing reaches the backend when refused")
        ctx.check(not w.spender.spent, "nothing is spent when refused")
        ctx.check(w.metric()[1] == 0, "no spending recorded when refused")
        ctx.observe("refused", [e.valid_count, e.required_count])
        return
    ctx.cover("accepted")
    ctx.check(price <= len(valid), "accepted only when the valid passes cover the price")
    ctx.check(
        len(w.calls) == 1 and w.calls[0][:3] == ("allocate_buckets", SI, frozenset(wanted)),
        "the backend gets exactly the requested allocation",
    )
    ctx.check(w.calls[0][3] == size, "the backend allocates the size paid for")
    ctx.check(w.calls[0][4] is False, "the backend never renews leases by itself")
    ctx.check(set(writers) == w.allocated, "the writers given out are those allocated")
    ctx.check(set(got) >= set(w.shares) & wanted, "already-present shares are reported")
    cost = len(w.allocated) * ceil_div(size, pv)
    spent = w.spender.spent
    ctx.check(len(spent) == cost, "as many passes are spent as the allocated shares cost")
    ctx.check(spent == valid[: len(spent)], "spent passes come from the front of the valid ones")
    ctx.check(w.metric()[1] == cost, "the metric records what was spent")
    ctx.check(w.metric()[0] == 1, "one spending event is recorded")
    ctx.observe("accepted", [sorted(w.allocated), len(spent)])


def h_priced_high(ctx, pv):
    """Prices far beyond any number of passes presented, and reporting them"""
    w = World(ctx, pv)
    size = ctx.int("size", 0, 1 << 50)
    n = ctx.choice("nshares", 4)
    enc, valid, bad = symbolic_passes(ctx, 2, allocate_buckets_message(SI), KINDS)
    price = n * ceil_div(size, pv)
    ctx.assume(price > 2)
    ctx.cover("refusable")
    try:
        w.server.remote_allocate_buckets(list(enc), SI, RENEW, CANCEL, set(range(n)), size, w.canary)
    except MorePassesRequired as e:
        ctx.check(e.valid_count == len(valid), "reports the number of valid passes")
        ctx.check(e.required_count == price, "reports the required number of passes")
        ctx.check(set(e.signature_check_failed) == set(bad), "reports the rejected positions")
        ctx.check(not w.calls and not w.spender.spent, "a refused request has no effect")
        ctx.observe("required", e.required_count)
        return
    ctx.check(False, "refused when the passes do not cover the price")


HARNESSES = []
for npasses, nshares, pv, kinds, tiers in [
    (2, 2, 1000, 1, ("quick", "thorough")),
    (3, 2, 1 << 20, 1, ("quick", "thorough")),
    (4, 1, 7, 1, ("quick", "thorough")),
    (1, 3, 1, 3, ("quick", "thorough")),
    (4, 2, 1 << 20, 1, ("thorough",)),
    (4, 3, 5, 1, ("thorough",)),
    (6, 2, 1000, 1, ("thorough",)),
]:
    HARNESSES.append(
        H(
            h_allocate,
            params={"npasses": npasses, "nshares": nshares, "pv": pv, "kinds": kinds},
            bounds="%d passes, each valid or bad (%d kinds); %d share numbers each unwanted / wanted / present / in progress; share size 0..8*%d+3"
            % (npasses, kinds, nshares, pv),
            covers=["accepted", "refused"],
            tiers=tiers,
        )
    )
for pv in (1, 1 << 20):
    HARNESSES.append(
        H(
            h_priced_high,
            params={"pv": pv},
            bounds="2 passes, 0..3 shares of 0..2^50 bytes, price above 2",
            covers=["refusable"],
        )
    )
