"""Mutable writes are gated by price and grant exactly the leases paid for."""
from symx.runner import H
from symx.values import blob, sym_len

from _zkapauthorizer._storage_server import NewLengthRejected
from _zkapauthorizer.storage_common import MorePassesRequired
from checks.server_common import *

PROPERTY = "C04"
TITLE = "mutable writes are gated by price and grant the leases paid for"
ASSUMPTIONS = [
    "pass signatures: each pass is valid or bad in one of the listed ways, made with the real Ristretto library (run concretely)",
    "file system, share containers and the Tahoe storage backend: models in symx/symbytes.py and checks/server_common.py; sampled paths re-run on a real StorageServer and real share files",
    "times are whole seconds below 2^31; the write enabler is right and test vectors, if any, pass",
]
KINDS = ["other message", "other key", "garbage"]
OTHER = b"o" * 32
TMAX = 1 << 30


def h_writev(ctx, npasses, nshares, nleases, nvec, pv, kinds=1, newlen=False, same_secret=False):
    now = ctx.int("now", 0, TMAX)
    w = World(ctx, pv, now)
    top = 4 * pv + 2
    nb = max(1, (top.bit_length() + 7) // 8)
    exists, sizes, exps, tw, ends = {}, {}, {}, {}, {}
    rejected = False
    for i in range(nshares):
        exists[i] = ctx.flag("have%d" % i)
        if exists[i]:
            size, raw = w.sym_size("size%d" % i, nb)
            ctx.assume(size <= top)
            leases = []
            for j in range(ctx.choice("nleases%d" % i, nleases + 1)):
                e = ctx.int("exp%d_%d" % (i, j), 0, TMAX)
                secret = bytes([65 + j]) * 32
                if same_secret and j == 0 and ctx.flag("ours%d" % i):
                    secret = RENEW
                leases.append((e, secret))
            w.add_share(i, "mutable", size, leases, raw)
            sizes[i] = size
            exps[i] = [e for e, _ in leases]
        mode = ctx.choice("vectors%d" % i, nvec + 2)
        if mode == nvec + 1:
            continue  # share not mentioned
        datav = []
        ends[i] = 0
        for j in range(mode):
            off = ctx.int("off%d_%d" % (i, j), 0, top)
            data = blob(ctx, "len%d_%d" % (i, j), 64)
            datav.append((off, data))
            ends[i] = Max([ends[i], off + sym_len(data)])
        nl = None
        if newlen and ctx.flag("newlen%d" % i):
            nl = ctx.int("newlenval%d" % i, 0, top)
            rejected = True
        tw[i] = ([], datav, nl)

    def active(i):
        return Or(*[e > now for e in exps[i]]) if exists[i] else False

    price = 0
    for i in range(nshares):
        if i not in tw or not tw[i][1]:
            continue
        if exists[i]:
            cur = Ite(active(i), sizes[i], 0)
        else:
            cur = 0
        price = price + ceil_div(Max([cur, ends[i]]), pv) - ceil_div(cur, pv)
    enc, valid, bad = symbolic_passes(
        ctx, npasses, slot_testv_and_readv_and_writev_message(SI), KINDS[:kinds]
    )
    before = {n: w.leases(n) for n in exps}
    try:
        r = w.server.remote_slot_testv_and_readv_and_writev(
            list(enc), SI, (WRITE_ENABLER, RENEW, CANCEL), tw, [(0, 1)]
        )
    except (MorePassesRequired, NewLengthRejected) as e:
        ctx.check(not w.calls, "nothing reaches the backend when refused")
        ctx.check(not w.spender.spent and w.metric()[1] == 0, "nothing is spent when refused")
        for n in exps:
            a, b = before[n], w.leases(n)
            ctx.check(
                len(a) == len(b) and And(*[x == y for x, y in zip(a, b)]),
                "no lease changes when refused",
            )
        if isinstance(e, NewLengthRejected):
            ctx.cover("new length refused")
            ctx.check(rejected, "refused for a new length only if there is one")
        else:
            ctx.cover("refused")
            ctx.check(price > len(valid), "refused only when the valid passes do not cover the price")
            ctx.check(e.valid_count == len(valid), "reports the number of valid passes")
            ctx.check(e.required_count == price, "reports the required number of passes")
            ctx.check(set(e.signature_check_failed) == set(bad), "reports the rejected positions")
        ctx.observe("refused", price)
        return
    ctx.cover("accepted")
    ctx.check(not rejected, "a write with a new length is refused")
    ctx.check(price <= len(valid), "accepted only when the valid passes cover the price")
    ctx.check(w.calls == [("writev", SI, False)], "the backend does the write once, without renewing leases itself")
    ctx.check(w.spender.spent == valid, "exactly the valid passes are spent, in order")
    ctx.check(w.metric() == (1, price), "the metric records the price")
    for i in range(nshares):
        written = i in tw and bool(tw[i][1])
        if not w.share_exists(i):
            continue
        after = w.leases(i)
        old = before.get(i, [])
        if not written:
            ctx.check(
                len(after) == len(old) and And(*[x == y for x, y in zip(after, old)]),
                "the leases of shares not written do not change",
            )
            continue
        if exists[i] and active(i):
            ctx.cover("written with an active lease")
            ctx.check(
                len(after) == len(old) and And(*[x == y for x, y in zip(after, old)]),
                "a share with an unexpired lease keeps its leases as they are",
            )
        else:
            ctx.cover("written without an active lease")
            granted = now + PERIOD
            n_new = 0
            for x in after:
                n_new = n_new + Ite(x == granted, 1, 0)
            ctx.check(n_new == 1, "a written share without an unexpired lease gains one full period")
            for x in old:
                pass
            ctx.check(len(after) <= len(old) + 1, "no further leases are added")
    ctx.observe("price", price)


HARNESSES = []


def add(tiers=("quick", "thorough"), covers=("accepted", "refused"), **p):
    HARNESSES.append(
        H(
            h_writev,
            params=p,
            bounds="%(npasses)d passes valid or bad; up to %(nshares)d shares of 0..4*%(pv)d+2 bytes with 0..%(nleases)d leases, expiries and now 0..2^30; each share unmentioned or written by 0..%(nvec)d vectors"
            % p,
            covers=covers,
            tiers=tiers,
        )
    )


Q = ("accepted", "refused", "written with an active lease", "written without an active lease")
add(npasses=2, nshares=1, nleases=2, nvec=2, pv=1000, covers=Q)
add(npasses=1, nshares=1, nleases=1, nvec=1, pv=7, kinds=3, covers=Q)
add(npasses=2, nshares=2, nleases=1, nvec=1, pv=1000, covers=Q)
add(npasses=2, nshares=1, nleases=1, nvec=1, pv=1 << 20, covers=Q)
add(npasses=1, nshares=2, nleases=0, nvec=1, pv=1000, newlen=True, covers=("accepted", "new length refused"))
add(npasses=1, nshares=1, nleases=2, nvec=1, pv=1000, same_secret=True, covers=Q)
add(npasses=3, nshares=2, nleases=2, nvec=1, pv=1000, covers=Q, tiers=("thorough",))
add(npasses=2, nshares=3, nleases=1, nvec=1, pv=1000, covers=Q, tiers=("thorough",))
add(npasses=2, nshares=2, nleases=1, nvec=2, pv=1000, covers=Q, tiers=("thorough",))
