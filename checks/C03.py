"""Lease renewals are accepted only when every stored share is paid for."""
from symx.runner import H

from _zkapauthorizer.storage_common import MorePassesRequired
from checks.server_common import *

PROPERTY = "C03"
TITLE = "lease renewals are gated by the price of all stored shares"
ASSUMPTIONS = [
    "pass signatures: each pass is valid or bad in one of the listed ways, made with the real Ristretto library (run concretely)",
    "file system, prometheus histogram: models in symx/symbytes.py and checks/server_common.py; sampled paths re-run on a real StorageServer and real share files",
    "an immutable share has at least one lease record (Tahoe-LAFS writes one when it creates the share and deletes the share with its last lease)",
    "all shares of one storage index are of one kind (immutable or mutable), as Tahoe-LAFS creates them",
]
KINDS = ["other message", "other key", "garbage"]


def populate(ctx, w, kind, nshares, top, nleases=1, nums=None):
    sizes = {}
    for i in range(nshares):
        num = (nums or {}).get(i, i)
        if not ctx.flag("have%d" % i):
            continue
        leases = [
            (ctx.int("exp%d_%d" % (i, j), 0, 1 << 31), bytes([65 + j]) * 32)
            # Tahoe never keeps an immutable share without a lease record
            for j in range(
                ctx.choice("nleases%d" % i, nleases + 1)
                if kind == "mutable"
                else 1 + ctx.choice("nleases%d" % i, nleases)
            )
        ]
        if kind == "immutable":
            size = ctx.int("size%d" % i, 0, top)
            w.add_share(num, kind, size, leases)
        else:
            nb = max(1, (top.bit_length() + 7) // 8)
            size, raw = w.sym_size("size%d" % i, nb)
            ctx.assume(size <= top)
            w.add_share(num, kind, size, leases, raw)
        sizes[num] = size
    return sizes


def h_add_lease(ctx, npasses, nshares, pv, kind, kinds):
    w = World(ctx, pv)
    # numbers far apart, more than one digit: 0, 7, 12, ...
    sizes = populate(ctx, w, kind, nshares, 3 * pv + 2, nums={0: 0, 1: 7, 2: 12, 3: 100})
    enc, valid, bad = symbolic_passes(ctx, npasses, add_lease_message(SI), KINDS[:kinds])
    price = 0
    for s in sizes.values():
        price = price + ceil_div(s, pv)
    before = {n: w.leases(n) for n in sizes}
    try:
        r = w.server.remote_add_lease(list(enc), SI, RENEW, CANCEL)
    except MorePassesRequired as e:
        ctx.cover("refused")
        ctx.check(price > len(valid), "refused only when the valid passes do not cover the price")
        ctx.check(e.valid_count == len(valid), "reports the number of valid passes")
        ctx.check(e.required_count == price, "reports the required number of passes")
        ctx.check(set(e.signature_check_failed) == set(bad), "reports the rejected positions")
        ctx.check(not w.calls, "nothing reaches the backend when refused")
        ctx.check(not w.spender.spent and w.metric()[1] == 0, "nothing is spent when refused")
        for n in sizes:
            a, b = before[n], w.leases(n)
            ctx.check(len(a) == len(b), "no lease is added when refused")
        ctx.observe("refused", [e.valid_count, e.required_count])
        return
    ctx.cover("accepted")
    ctx.check(price <= len(valid), "accepted only when the valid passes cover the price")
    ctx.check(
        w.calls == [("add_lease", SI, RENEW, CANCEL)],
        "the backend gets exactly the requested lease",
    )
    ctx.check(w.spender.spent == valid, "exactly the valid passes are spent, in order")
    ctx.check(w.metric()[1] == len(valid), "the metric agrees with what was spent")
    ctx.observe("accepted", [len(w.spender.spent), price])


HARNESSES = []
for npasses, nshares, pv, kind, kinds, tiers in [
    (2, 2, 1000, "immutable", 1, ("quick", "thorough")),
    (2, 2, 1 << 20, "mutable", 1, ("quick", "thorough")),
    (1, 3, 7, "immutable", 3, ("quick", "thorough")),
    (4, 2, 1, "mutable", 1, ("quick", "thorough")),
    (3, 3, 1 << 20, "immutable", 1, ("thorough",)),
    (4, 3, 1000, "mutable", 1, ("thorough",)),
]:
    HARNESSES.append(
        H(
            h_add_lease,
            params={"npasses": npasses, "nshares": nshares, "pv": pv, "kind": kind, "kinds": kinds},
            bounds="%d passes each valid or bad (%d kinds); up to %d %s shares of 0..3*%d+2 bytes with 0..1 leases"
            % (npasses, kinds, nshares, kind, pv),
            covers=["accepted", "refused"],
            tiers=tiers,
        )
    )
