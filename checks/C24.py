"""Issuer answers are classified correctly and failures lose nothing."""
import json
from datetime import timedelta

from symx.runner import H
from symx.values import *

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer import controller as C
from _zkapauthorizer import model as M
from checks import issuer_common as I
from checks.client_common import outcome
from checks.wallet_common import *

PROPERTY = "C24"
TITLE = "issuer answers are classified correctly and failures lose nothing"
ASSUMPTIONS = [
    "the cryptographic library's contract (see C11); concrete replays use the real library",
    "values of the success field: absent, true, false, null, 0",
]

ABSENT = object()
REASONS = [ABSENT, "double-spend", "unpaid", "invalid-counter", None, 5, "Unpaid", "double-spend ", "", ["unpaid"]]


def answer_body(ctx, w, request, key=0):
    """(body, what it means): any answer an issuer (or something posing as
    one) might give."""
    shape = ctx.pick("shape", ["object", "object", "not json", "empty", "list", "number", "null", "text", "not utf-8"])
    if shape != "object":
        body = {
            "not json": b"<html>oops</html>",
            "empty": b"",
            "list": b'["double-spend"]',
            "number": b"3",
            "null": b"null",
            "text": b'"unpaid"',
            "not utf-8": b'{"success": false, "reason": "\xff"}',
        }[shape]
        return body, "error"
    d = {}
    success = ctx.pick("success", [True, False, ABSENT, None, 0])
    if success is not ABSENT:
        d["success"] = success
    if success is not True:
        reason = ctx.pick("reason", REASONS)
        if reason is not ABSENT:
            d["reason"] = reason
        if ctx.flag("with tokens"):
            d.update(sound(w, request, key))
        return json.dumps(d).encode("utf-8"), {"double-spend": "spent", "unpaid": "unpaid"}.get(
            reason if isinstance(reason, str) else "", "error"
        )
    d.update(sound(w, request, key))
    if ctx.flag("with reason"):
        d["reason"] = "unpaid"
    field = ctx.pick("faulty field", [None, "signatures", "proof", "public-key"])
    if field is None:
        return json.dumps(d).encode("utf-8"), "tokens"
    how = ctx.pick("fault", ["absent", None, 5, "garbage", "list", "other key"])
    if how == "absent":
        del d[field]
    elif how == "garbage":
        d[field] = ["!"] * len(d[field]) if field == "signatures" else "!"
    elif how == "list":
        d[field] = [] if field == "signatures" else ["x"]
    elif how == "other key":
        d[field] = sound(w, request, 1 - key)[field]
        if field == "signatures" and not request["redeemTokens"]:
            return json.dumps(d).encode("utf-8"), "tokens"
    else:
        d[field] = how
    return json.dumps(d).encode("utf-8"), "error"


def sound(w, request, key):
    blinded = [t.encode("ascii") for t in request["redeemTokens"]]
    signed = [w.sign(b, key) for b in blinded]
    return {
        "signatures": [s.decode("ascii") for s in signed],
        "proof": w.prove(blinded, signed, key).decode("ascii"),
        "public-key": w.claim(key).decode("ascii"),
    }


def h_answer(ctx, n):
    ctx.opaque_text = True
    w = I.World(ctx)
    tokens = w.tokens(n)
    code = ctx.int("status", 100, 599)
    meant = []

    def answer(request):
        if ctx.flag("network failure"):
            meant.append("error")
            raise OSError("connection lost")
        body, m = answer_body(ctx, w, request)
        meant.append(m)
        return I.Response(code, body)

    voucher = M.Voucher(voucher_name(0), expected_tokens=100)
    kind, got = outcome(Deferred.fromCoroutine(I.redeemer(I.Client(answer)).redeemWithCounter(voucher, 1, tokens)))
    ctx.check(len(meant) == 1, "one request")
    ctx.cover(meant[0])
    if meant[0] == "tokens":
        ctx.check(kind == "value", "a sound successful answer gives tokens", detail=str(got))
        ctx.check(len(got.unblinded_tokens) == n, "all of them")
        return
    ctx.check(kind == "error", "any other answer gives no tokens", detail=str(got))
    is_spent, is_unpaid = isinstance(got, C.AlreadySpent), isinstance(got, C.Unpaid)
    ctx.check(is_spent == (meant[0] == "spent"), "double-spent exactly if the issuer says so", detail=repr(got))
    ctx.check(is_unpaid == (meant[0] == "unpaid"), "unpaid exactly if the issuer says so", detail=repr(got))


ANSWERS = ("success", "unpaid", "spent", "unexpected", "garbage", "network", "unproven")


def h_shown(ctx, groups, length, first):
    """What is shown of a voucher is the outcome of its latest attempt."""
    time = [NOW]
    w = Wallet(ctx, now=lambda: time[0])
    w.ready()
    crypto = I.World(ctx)
    waiting = []

    class Held:
        """The answers come when the history says."""

        def post(self, url, data=None, headers=None, **kw):
            d = Deferred()
            waiting.append((json.loads(data), d))
            return d

    clock = Clock()
    v = voucher_name(0)
    done = 0
    c = C.PaymentController(clock, w.store, I.redeemer(Held()), groups * 2, allowed_public_keys={crypto.claim(0).decode()}, num_redemption_groups=groups)
    d = Deferred.fromCoroutine(c.redeem(v))
    keep = [d]
    shown = None
    for i in range(length):
        if not waiting:
            clock.advance(C.RETRY_INTERVAL.total_seconds())
            ctx.check(len(waiting) == 1, "after a transient failure the voucher is attempted again")
        time[0] = time[0] + timedelta(seconds=1)
        request, answer = waiting.pop()
        st = c.get_voucher(v).state
        ctx.check(isinstance(st, M.Redeeming), "an attempt in progress is shown")
        ctx.check(st.counter == done, "with its progress")
        what = first if i == 0 else ctx.pick("answer%d" % i, ANSWERS)
        ctx.cover(what)
        body = {"success": False}
        if what == "success":
            body = dict(sound(crypto, request, 0), success=True)
        elif what == "unproven":
            body = dict(sound(crypto, request, 0), success=True)
            body["public-key"] = crypto.claim(1).decode("ascii")
        elif what == "unpaid":
            body["reason"] = "unpaid"
        elif what == "spent":
            body["reason"] = "double-spend"
        elif what == "unexpected":
            body["reason"] = "unexpected"
        if what == "network":
            answer.errback(OSError("connection lost"))
        else:
            raw = b"<html>" if what == "garbage" else json.dumps(body).encode("utf-8")
            answer.callback(I.Response(200, raw))
        st = c.get_voucher(v).state
        if what == "success":
            done += 1
            if done == groups:
                ctx.check(isinstance(st, M.Redeemed), "complete success is shown")
                ctx.check(w.store.count_unblinded_tokens() == groups * 2, "no token is lost")
                ctx.cover("redeemed")
                return
            ctx.check(isinstance(st, M.Redeeming), "the next step is in progress")
            continue
        if what == "spent":
            ctx.check(isinstance(st, M.DoubleSpend), "a double-spent voucher is shown so")
            ctx.check(isinstance(w.store.get(v).state, M.DoubleSpend), "and recorded so")
            clock.advance(C.RETRY_INTERVAL.total_seconds())
            ctx.check(not waiting, "and not attempted again")
            return
        stored = w.store.get(v).state
        ctx.check(isinstance(stored, M.Pending), "only an issuer's word marks a voucher double-spent")
        ctx.check(stored.counter == done, "a failure loses no progress")
        if what == "unpaid":
            ctx.check(isinstance(st, M.Unpaid), "the latest outcome is shown: unpaid")
        else:
            ctx.check(isinstance(st, M.Error), "the latest outcome is shown: error")
        ctx.check(st.finished == time[0], "with its time")


HARNESSES = []
Q = ("quick",)
T = ("thorough",)


def add(fn, bounds, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(H(fn, params=p, bounds=bounds % p, covers=covers, tiers=tiers))


add(h_answer, "%(n)d tokens, any status, success and reason fields, one faulty field", ["tokens", "spent", "unpaid", "error"], n=2)
for a in ANSWERS:
    add(h_shown, "%(groups)d steps, %(length)d answers", [a], Q, groups=2, length=3, first=a)
    add(h_shown, "%(groups)d steps, %(length)d answers", [a], T, groups=3, length=5, first=a)
