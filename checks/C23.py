"""The HTTP API accepts exactly the well-formed requests and nothing else."""
import json

from symx import symtext
from symx.runner import H
from symx.values import *

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer import controller as C
from _zkapauthorizer import model as M
from _zkapauthorizer import resource as R
from checks import web_common as web
from checks.wallet_common import *

PROPERTY = "C23"
TITLE = "the HTTP API accepts exactly the well-formed requests"
ASSUMPTIONS = [
    "well-formed content-type: exactly application/json, as the documentation has it",
    "whether the version 1.0 counts as version 1 is left open",
    "JSON parsing and serialization are the standard library's; numbers of thousands of digits are outside the bounds",
    "requests carry the right API token (C22 decides the others)",
]
ABSENT = object()
SYNTAX_ERRORS = [b"", b"{", b"[1,", b"\xff\xfe", b'{"version": 1, "sizes": [1]', b"[" * 100000, b'{"voucher": "' + b"\xff" * 44 + b'"}']


def value(ctx, name, kinds):
    """(JSON value, its kind)"""
    kind = ctx.pick(name + ".kind", kinds)
    if kind == "int":
        return ctx.int(name), kind
    if kind == "bool":
        return ctx.bool(name), kind
    return {
        "null": None, "text": "1", "float": 1.0, "fraction": 1.5, "list": [1], "object": {"version": 1},
        "nan": float("nan"), "empty": [], "infinity": float("inf"),
    }[kind], kind


def client_error(ctx, request, what):
    ctx.check(And(request.status >= 400, request.status < 500), "a client error: " + what, detail=request.status)
    ctx.check(web.over(request), "the request is answered: " + what)


def post(ctx, root, body, headers):
    request = web.Request(b"POST", [b"calculate-price"], body, [web.AUTH] + headers)
    failed = web.serve(root, request)
    ctx.check(failed is None, "no internal failure", detail=repr(failed))
    return request


JSON_TYPE = (b"content-type", b"application/json")


def price(sizes, k, n, pv):
    return Sum([n * ceil_div(ceil_div(s, k), pv) for s in sizes])


def h_price(ctx, sizes, kinds):
    ctx.opaque_text = True
    w = Wallet(ctx)
    web.install_web(ctx, w.patcher)
    k, n, pv = ctx.pick("configuration", [(3, 10, 1000), (1, 1, 1 << 20), (255, 255, 1)])
    config = web.Config({"default-token-count": "16", "shares.needed": str(k), "shares.total": str(n), "pass-value": str(pv)})
    root = web.tree(ctx, w.store, config=config)
    before = w.ready()
    doc = {}
    versions = ["int", "bool", "absent", "null", "text", "float", "list", "nan"] if kinds == "version" else ["int"]
    version, vkind = value(ctx, "version", versions[:1]) if kinds != "version" else (None, None)
    if kinds == "version":
        vkind = ctx.pick("version.kind", versions)
        version = {"int": lambda: ctx.int("version"), "bool": lambda: ctx.bool("version"), "absent": lambda: ABSENT,
                   "null": lambda: None, "text": lambda: "1", "float": lambda: 1.0, "list": lambda: [1],
                   "nan": lambda: float("nan")}[vkind]()
    if version is not ABSENT:
        doc["version"] = version
    given = []
    good = True
    if kinds == "list":
        doc["sizes"], kind = value(ctx, "sizes", ["null", "int", "bool", "text", "object", "float"])
        good = False
    elif kinds == "absent":
        good = False
    else:
        count = ctx.choice("count", sizes + 1)
        for i in range(count):
            x, kind = value(ctx, "size%d" % i, ["int", "bool", "null", "text", "float", "fraction", "list", "nan", "infinity"] if kinds == "sizes" else ["int"])
            given.append(x)
            good = And(good, x >= 0) if kind == "int" else False
        doc["sizes"] = given
    if ctx.flag("another key"):
        doc["sized"] = [1]
    if ctx.concrete:
        good = bool(good)
    request = post(ctx, root, web.body_of(ctx, doc), [JSON_TYPE])
    ctx.check(no_change(before, w.state()), "the wallet is unchanged")
    accepted = request.status == 200
    if vkind == "float" and good:
        ctx.stop("left open")
    right = And(vkind == "int", version == 1) if vkind == "int" else False
    if not accepted:
        ctx.cover("refused")
        ctx.check(Not(And(right, good)), "a well-formed query is answered")
        client_error(ctx, request, "the query")
        return
    ctx.cover("answered")
    ctx.check(right, "only version 1 is answered")
    ctx.check(good, "only lists of non-negative integers are answered")
    reply = request.answer()
    ctx.check(reply["price"] == price(given, k, n, pv), "the price of exactly these sizes")
    ctx.check(reply["period"] == 31 * 24 * 60 * 60, "the lease period")


def h_price_content(ctx, length):
    """The content type must be application/json, and the body JSON."""
    ctx.opaque_text = True
    w = Wallet(ctx)
    if not ctx.concrete:
        symtext.install(w.patcher)
    web.install_web(ctx, w.patcher)
    root = web.tree(ctx, w.store)
    before = w.ready()
    kind = ctx.pick("content type", ["right", "missing", "any", "twice"])
    headers = []
    right = kind == "right"
    if kind == "right":
        headers = [JSON_TYPE]
    elif kind == "any":
        given = symtext.octets(ctx, "content", ctx.choice("length", length + 1))
        headers = [(b"content-type", given)]
        right = given == b"application/json"
    elif kind == "twice":
        headers = [(b"content-type", b"text/plain"), JSON_TYPE]
    body = ctx.pick("body", ["good", "bad", "not an object"])
    if body == "good":
        content = web.body_of(ctx, {"version": 1, "sizes": [ctx.int("size", 0)]})
    elif body == "bad":
        content = ctx.pick("error", SYNTAX_ERRORS)
    else:
        content = web.body_of(ctx, ctx.pick("document", [None, 1, True, "x", [], [{"version": 1, "sizes": []}], [1, []]]))
    request = post(ctx, root, content, headers)
    ctx.check(no_change(before, w.state()), "the wallet is unchanged")
    if request.status == 200:
        ctx.cover("answered")
        ctx.check(right, "only application/json is accepted")
        ctx.check(body == "good", "only an object is accepted")
    else:
        ctx.cover("refused")
        ctx.check(Not(And(right, body == "good")), "a well-formed query is answered")
        client_error(ctx, request, "the query")


# -- vouchers ---------------------------------------------------------------------------

ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def in_alphabet(i):
    return Or(And(i >= 65, i <= 90), And(i >= 97, i <= 122), And(i >= 48, i <= 57), i == 45, i == 95)


def well_formed(items):
    """44 characters that are base64 (of the URL-safe alphabet)."""
    items = [ord(c) if isinstance(c, str) else c for c in items] if type(items) in (str, bytes) else items.items
    if len(items) != 44:
        return False
    a, b = items[42], items[43]
    return And(
        *[in_alphabet(i) for i in items[:42]],
        Or(And(in_alphabet(a), in_alphabet(b)), And(in_alphabet(a), b == 61), And(a == 61, b == 61)),
    )


class NoStore:
    """Stands in for a wallet without vouchers; records what it is asked."""

    def __init__(self):
        self.asked = []

    def get(self, number):
        self.asked.append(number)
        raise KeyError(number)

    def list(self):
        return []


class NoController:
    def __init__(self):
        self.redeemed = []

    async def redeem(self, voucher, num_tokens=None):
        self.redeemed.append(voucher)

    def get_voucher(self, number):
        raise KeyError(number)

    def incorporate_transient_state(self, voucher):
        return voucher


def h_voucher(ctx, how, length, window=None):
    """Which texts are vouchers."""
    ctx.opaque_text = True
    patcher = Patcher(ctx)
    if not ctx.concrete:
        patcher.builtins()
        symtext.install(patcher)
    web.install_web(ctx, patcher)
    store, controller = NoStore(), NoController()
    root = R.authorizationless_resource_tree(store, controller, None, None, R.Resource())
    if how == "submitted":
        given = symtext.text(ctx, "c", length)
        request = web.Request(b"PUT", [b"voucher"], web.body_of(ctx, {"voucher": given}))
    else:
        if window is None:
            given = symtext.octets(ctx, "c", length, 0, 127)
        else:
            given = symtext.octets(ctx, "c", window)
            at = ctx.choice("at", 3)
            pad = length - window
            before, after = [(0, pad), (pad // 2, pad - pad // 2), (pad, 0)][at]
            given = b"A" * before + given + b"A" * after
        request = web.Request(b"GET", [b"voucher", given])
    failed = web.serve(root, request)
    ctx.check(failed is None, "no internal failure", detail=repr(failed))
    ctx.check(web.over(request), "the request is answered")
    ok = well_formed(given)
    if how == "submitted":
        if request.status == 200:
            ctx.cover("accepted")
            ctx.check(ok, "only a voucher is accepted")
            ctx.check(len(controller.redeemed) == 1, "an accepted voucher is redeemed")
            ctx.check(controller.redeemed[0] == given.encode("ascii"), "exactly the voucher submitted")
            return
        ctx.check(not controller.redeemed, "nothing else is")
    else:
        if request.status == 404:
            ctx.cover("looked up")
            # a path segment may also simply not name anything
            for asked in store.asked:
                ctx.check(asked == given, "exactly the voucher asked for")
            return
        ctx.check(not store.asked, "nothing else is looked up")
    ctx.cover("refused")
    ctx.check(Not(ok), "a voucher is accepted")
    client_error(ctx, request, "what is no voucher")


STATES = ["absent", "pending", "redeemed", "double-spend"]


def put_voucher(ctx, w, i, state, done=0):
    total = 16 + 3 * i if state == "pending" else ctx.int("total%d" % i, 16, 1 << 40)
    w.put(
        "vouchers", state != "absent", number=voucher_name(i).decode(), created=str(NOW), state=state if state != "absent" else "pending",
        finished=None if state in ("pending", "absent") else str(NOW), token_count=ctx.int("count%d" % i, 0, 1 << 40) if state == "redeemed" else None,
        counter=done, expected_tokens=total, sequestered_count=0,
    )
    return total


KEY = web.KEY

BODIES = [
    ("right", None),
    ("extra key", {"extra": 1}),
    ("not an object", [None, [], "voucher", 1, True]),
    ("no key", [{}, {"vouchers": voucher_name(0).decode()}, {"Voucher": voucher_name(0).decode()}]),
    ("not text", [None, 1, True, [], [voucher_name(0).decode()], {"voucher": voucher_name(0).decode()}, 1.5]),
    ("not well-formed", ["", "x", voucher_name(0).decode()[:-1], voucher_name(0).decode() + "=", voucher_name(0).decode() + "\n", "\u0660" * 43 + "="]),
    ("syntax", SYNTAX_ERRORS),
]


def h_put(ctx, state, fault):
    """Submitting to a real wallet."""
    ctx.opaque_text = True
    w = Wallet(ctx)
    web.install_web(ctx, w.patcher)
    done = ctx.choice("done", 2) if state == "pending" else 0
    put_voucher(ctx, w, 0, state, done)
    other = ctx.pick("other", STATES)
    put_voucher(ctx, w, 1, other)
    issuer = web.HeldIssuer()
    before = w.ready()
    # The wallet starts up with what is stored.
    root = web.tree(ctx, w.store, redeemer=issuer, config=web.Config({"default-token-count": "16"}))
    started = len(issuer.attempts)
    before = w.state()
    v = voucher_name(0)
    what, options = ctx.pick("body", BODIES if fault is None else BODIES[:1])
    raw = doc = None
    good = False
    if what == "right":
        doc, good = {"voucher": v.decode()}, True
    elif what == "extra key":
        doc = {"voucher": v.decode(), "extra": 1}
    elif what == "syntax":
        raw = ctx.pick("raw", options)
    else:
        x = ctx.pick("value", options)
        doc = {"voucher": x} if what in ("not text", "not well-formed") else x
    w.commits.clear()
    if fault == "statement":
        w.fail_at(ctx.choice("fault", 14))
    elif fault == "in use":
        # another operation of the wallet is under way
        w.fail_at(0, sqlite_error(w))
    request = web.Request(b"PUT", [b"voucher"], web.body_of(ctx, doc, raw), [web.AUTH, JSON_TYPE])
    failed = web.serve(root, request)
    w.no_faults()
    ctx.check(failed is None, "no internal failure", detail=repr(failed))
    ctx.check(web.over(request), "the request is answered")
    after = w.state()
    if request.status == 200:
        ctx.cover("accepted")
        ctx.check(good, "only a well-formed submission is accepted")
        try:
            stored = w.store.get(v)
        except KeyError:
            stored = None
        ctx.check(stored is not None, "what is accepted is stored")
        expect = state in ("absent", "pending") and fault is None
        if fault is None:
            shown = [a for a in issuer.attempts if a[0] == v]
            ctx.check(len(shown) == (1 if expect else 0), "and redeemed once, unless it is decided already")
        ctx.check(no_change(before, after, "vouchers", "tokens", "event-stream"), "nothing else changes")
    else:
        ctx.cover("refused")
        if fault is None:
            ctx.check(not good, "a well-formed submission is accepted")
            client_error(ctx, request, "the submission")
            ctx.check(no_change(before, after), "and leaves the wallet unchanged")
            ctx.check(len(issuer.attempts) == started, "and redeems nothing")
        else:
            ctx.check(request.status >= 400, "a failure is reported as one")


def sqlite_error(w):
    import sqlite3

    return sqlite3.OperationalError("database is locked")


def fields(shown):
    return {k: shown[k] for k in ("version", "number", "expected-tokens", "created", "state")}


def h_view(ctx, whole):
    """What is shown of vouchers: every state, stored or not."""
    ctx.opaque_text = True
    w = Wallet(ctx)
    web.install_web(ctx, w.patcher)
    states = {0: ctx.pick("state", STATES)}
    states[1] = ctx.pick("other", STATES)
    totals, counts = {}, {}
    done = {0: ctx.choice("done", 16) if states[0] == "pending" and not whole else 0, 1: 0}
    for i, s in states.items():
        totals[i] = put_voucher(ctx, w, i, s, done[i])
    issuer = web.HeldIssuer()
    w.ready()
    root = web.tree(ctx, w.store, redeemer=issuer)
    outcome = {}
    for i, s in states.items():
        mine = [a for a in issuer.attempts if a[0] == voucher_name(i)]
        ctx.check(len(mine) == (1 if s == "pending" else 0), "a pending voucher is redeemed at the start")
        if s != "pending":
            continue
        outcome[i] = ctx.pick("outcome%d" % i, ["held", "unpaid", "error", "spent"])
        if outcome[i] == "unpaid":
            mine[0][3].errback(C.Unpaid(voucher_name(i)))
        elif outcome[i] == "error":
            mine[0][3].errback(OSError("trouble"))
        elif outcome[i] == "spent":
            mine[0][3].errback(C.AlreadySpent(voucher_name(i)))
    before = w.state()

    def check(shown, i):
        s = states[i]
        ctx.check(shown["number"] == voucher_name(i).decode("ascii"), "its own number")
        ctx.check(shown["version"] == 1, "the version of the data")
        ctx.check(shown["expected-tokens"] == totals[i], "the tokens it is for")
        ctx.check(shown["created"] == NOW.isoformat(), "when it was added")
        state = shown["state"]
        if s == "pending":
            name = {"held": "redeeming", "unpaid": "unpaid", "error": "error", "spent": "double-spend"}[outcome[i]]
            ctx.check(state["name"] == name, "its state")
            if name == "redeeming":
                ctx.check(state["counter"] == done[i], "its progress")
                ctx.check(state["started"] == NOW.isoformat(), "when the attempt began")
            else:
                ctx.check(state["finished"] == NOW.isoformat(), "when the attempt ended")
            ctx.cover(name)
        else:
            ctx.check(state["name"] == s, "its state")
            ctx.check(state["finished"] == NOW.isoformat(), "when it was decided")
            if s == "redeemed":
                ctx.check(state["token-count"] == (ctx_int(ctx, "count%d" % i)), "the tokens received")
            ctx.cover(s)

    if whole:
        request = web.Request(b"GET", [b"voucher"], b"", [web.AUTH])
        failed = web.serve(root, request)
        ctx.check(failed is None, "no internal failure", detail=repr(failed))
        ctx.check(request.status == 200, "the list is shown")
        listed = request.answer()["vouchers"]
        expect = [i for i, s in states.items() if s != "absent"]
        ctx.check(len(listed) == len(expect), "every voucher is listed once")
        for i in expect:
            mine = [x for x in listed if x["number"] == voucher_name(i).decode("ascii")]
            ctx.check(len(mine) == 1, "every voucher is listed")
            check(mine[0], i)
    else:
        request = web.Request(b"GET", [b"voucher", voucher_name(0)], b"", [web.AUTH])
        failed = web.serve(root, request)
        ctx.check(failed is None, "no internal failure", detail=repr(failed))
        if states[0] == "absent":
            ctx.cover("absent")
            ctx.check(request.status == 404, "an unknown voucher is not found")
        else:
            ctx.check(request.status == 200, "a known voucher is shown")
            check(request.answer(), 0)
    ctx.check(no_change(before, w.state()), "looking changes nothing")


def ctx_int(ctx, name):
    """An input declared before."""
    if ctx.concrete:
        return ctx.int(name, 0, 1 << 40)
    return SymInt(ctx.inputs[name][1])


HARNESSES = []
Q = ("quick",)
T = ("thorough",)


def add(fn, bounds, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(H(fn, params=p, bounds=bounds % p, covers=covers, tiers=tiers))


add(h_price, "up to %(sizes)d sizes of any kind of JSON value", ["answered", "refused"], Q, sizes=2, kinds="sizes")
add(h_price, "up to %(sizes)d sizes of any kind of JSON value", ["answered", "refused"], T, sizes=3, kinds="sizes")
add(h_price, "any version, up to %(sizes)d integers", ["answered", "refused"], sizes=3, kinds="version")
add(h_price, "sizes that are no list", ["refused"], sizes=0, kinds="list")
add(h_price, "no sizes", ["refused"], sizes=0, kinds="absent")
add(h_price_content, "content types of up to %(length)d bytes", ["answered", "refused"], length=18)
for n in (0, 1, 43, 44, 45):
    add(h_voucher, "any text of %(length)d characters", ["accepted", "refused"] if n == 44 else ["refused"], how="submitted", length=n)
for n in (1, 43, 44, 45):
    add(h_voucher, "any ASCII path segment of %(length)d bytes", ["looked up", "refused"] if n == 44 else ["refused"], how="asked", length=n)
for n in (44, 45, 46):
    add(h_voucher, "a path segment of %(length)d bytes, %(window)d of them arbitrary", ["refused"], how="asked", length=n, window=3)
for s in STATES:
    add(h_put, "the voucher is %(state)s", ["accepted", "refused"], state=s, fault=None)
    add(h_put, "the voucher is %(state)s; one statement fails", ["refused"], state=s, fault="statement")
add(h_view, "one of two vouchers in any state", ["redeeming", "unpaid", "error", "double-spend", "redeemed", "absent"], whole=False)
add(h_view, "two vouchers in any states", ["redeeming", "unpaid", "error", "double-spend", "redeemed"], whole=True)
