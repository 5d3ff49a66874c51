"""Prices: every price is the sum of per-share ceilings."""
from symx.env import Patcher
from symx.runner import H
from symx.values import And, IntShim, Ite, Max, Sum, blob, ceil_div, sym_len

from _zkapauthorizer import pricecalculator, storage_common
import pyutil.mathutil

PROPERTY = "C01"
TITLE = "prices are the sum of the per-share ceilings"
ASSUMPTIONS = [
    "true division in the code under test, should it appear, is modelled as a real within one double rounding of the quotient",
    "logging (eliot) is replaced by an empty body",
]

BIG = 1 << 62


def setup(ctx):
    if not ctx.concrete:
        p = Patcher(ctx).builtins()
        p.set(pyutil.mathutil, "int", IntShim)


def pass_value(ctx, pv):
    if pv is None:
        v = ctx.int("pass_value", 1, 1 << 40)
        return v
    return pv


def h_required(ctx, n, pv, view):
    """required_passes == sum of ceilings, for lists and dict views"""
    setup(ctx)
    p = pass_value(ctx, pv)
    sizes = [ctx.int("size%d" % i, 0, BIG) for i in range(n)]
    arg = dict(enumerate(sizes)).values() if view else list(sizes)
    got = storage_common.required_passes(p, arg)
    want = Sum(ceil_div(s, p) for s in sizes)
    ctx.observe("price", got)
    ctx.cover("priced")
    ctx.check(got == want, "price is the sum of ceil(size / pass value)")
    if n:
        ctx.check(got * p >= Sum(sizes), "the passes cover every byte")


def h_calculator(ctx, n, pv):
    """The file price calculator charges every share of every file"""
    setup(ctx)
    p = pass_value(ctx, pv)
    k = ctx.choice("needed", 4) + 1
    total = k + ctx.choice("extra", 3)
    if ctx.tier == "thorough":
        wide = ctx.choice("wide", 3)
        k, total = [(k, total), (7, 12), (25, 50)][wide]
    sizes = [ctx.int("size%d" % i, 0, BIG) for i in range(n)]
    calc = pricecalculator.PriceCalculator(
        shares_needed=k, shares_total=total, pass_value=p
    )
    gen = ctx.flag("iterator")
    got = calc.calculate(iter(sizes) if gen else list(sizes))
    want = Sum(total * ceil_div(ceil_div(s, k), p) for s in sizes)
    ctx.observe("price", got)
    ctx.cover("priced")
    ctx.check(got == want, "price of files is N * ceil(ceil(size / k) / pass value)")


def h_calculator_sym(ctx):
    """Same with the share counts themselves symbolic, one file"""
    setup(ctx)
    p = 1 << 20
    k = ctx.int("needed", 1, 256)
    total = ctx.choice("total", 5) + 1
    size = ctx.int("size", 0, 1 << 40)
    calc = pricecalculator.PriceCalculator(
        shares_needed=k, shares_total=total, pass_value=p
    )
    got = calc.calculate([size])
    share = ctx.int("share", 0, 1 << 40)
    # share is the smallest integer with share * k >= size
    ctx.assume(And(share * k >= size, (share - 1) * k < size))
    ctx.cover("priced")
    ctx.observe("price", got)
    ctx.check(got == total * ceil_div(share, p), "price uses the smallest share size")


def h_mutable(ctx, nshares, nvec, pv, truncate):
    """Growth of mutable shares: pay exactly the difference in price"""
    setup(ctx)
    p = pass_value(ctx, pv)
    current = {}
    tw = {}
    want = 0
    for i in range(nshares):
        exists = ctx.flag("exists%d" % i)
        cur = 0
        if exists:
            cur = ctx.int("cur%d" % i, 0, BIG)
            current[i] = cur
        new = cur
        nv = ctx.choice("nvec%d" % i, nvec + 2)
        if nv <= nvec:
            datav = []
            ends = []
            for j in range(nv):
                off = ctx.int("off%d_%d" % (i, j), 0, BIG)
                data = blob(ctx, "len%d_%d" % (i, j), 4096)
                datav.append((off, data))
                ends.append(off + sym_len(data))
            nl = None
            if truncate and ctx.flag("has_newlen%d" % i):
                nl = ctx.int("newlen%d" % i, 0, BIG)
            tw[i] = ([], datav, nl)
            implied = Max([0] + ends)
            if nl is not None:
                implied = Ite(nl < implied, nl, implied)
            new = Max([cur, implied])
        want = want + ceil_div(new, p) - ceil_div(cur, p)
    before = dict(current)
    got = storage_common.get_required_new_passes_for_mutable_write(p, current, tw)
    ctx.observe("price", got)
    ctx.cover("priced")
    ctx.check(got == want, "a mutable write costs the difference in price")
    ctx.check(got >= 0, "a mutable write never has a negative price")
    ctx.check(
        list(current) == list(before)
        and And(*[current[i] == before[i] for i in before]),
        "the caller's size map is left alone",
    )


PVS = [1, 7, 1000, 1 << 20]
HARNESSES = []
for n, pvs in ((0, [None]), (1, [None]), (2, [None]), (3, PVS), (5, [7, 1 << 20])):
    for pv in pvs:
        for view in (False, True):
            HARNESSES.append(
                H(
                    h_required,
                    params={"n": n, "pv": pv, "view": view},
                    bounds="%d shares of 0..2^62 bytes, pass value %s"
                    % (n, pv or "symbolic 1..2^40"),
                    covers=["priced"],
                )
            )
for n in (1, 2):
    for pv in PVS:
        HARNESSES.append(
            H(
                h_calculator,
                params={"n": n, "pv": pv},
                bounds="%d files of 0..2^62 bytes, k 1..4, N k..k+2 (thorough: also 7/12, 25/50)"
                % n,
                covers=["priced"],
            )
        )
HARNESSES.append(
    H(
        h_calculator,
        params={"n": 1, "pv": None},
        bounds="1 file of 0..2^62 bytes, k 1..4, N k..k+2, pass value symbolic",
        covers=["priced"],
    )
)
HARNESSES.append(
    H(
        h_calculator_sym,
        bounds="1 file, size 0..2^40, k symbolic 1..256, N 1..5",
        covers=["priced"],
        tiers=("thorough",),
    )
)


def mut(nshares, nvec, pv, truncate, **kw):
    HARNESSES.append(
        H(
            h_mutable,
            params={"nshares": nshares, "nvec": nvec, "pv": pv, "truncate": truncate},
            bounds="%d shares, each absent or of 0..2^62 bytes, <=%d write vectors each (offset 0..2^62, data 0..4096 bytes), new_length %s"
            % (nshares, nvec, "absent or 0..2^62" if truncate else "absent"),
            covers=["priced"],
            **kw,
        )
    )


for pv in PVS:
    mut(2, 1, pv, False)
mut(1, 3, 1 << 20, False)
mut(1, 2, 1000, True)
mut(1, 1, None, False)
mut(2, 1, 1 << 20, True, tiers=("thorough",))
mut(2, 2, 1 << 20, False, tiers=("thorough",))
mut(3, 1, 1 << 20, False, tiers=("thorough",))
