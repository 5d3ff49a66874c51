"""The private HTTP API answers only requests carrying the exact API token."""
from symx import symtext
from symx.runner import H
from symx.symbytes import SymBytes
from symx.symtext import SymStr
from symx.values import *

from autobahn.twisted.resource import WebSocketResource
from twisted.internet.defer import Deferred
from twisted.web._auth.wrapper import HTTPAuthSessionWrapper

from checks import web_common as web
from checks.wallet_common import *

PROPERTY = "C22"
TITLE = "the private HTTP API answers only requests carrying the exact API token"
ASSUMPTIONS = [
    "whether the name of the scheme may be written in capitals is left open",
    "twisted.cred and twisted.web.guard are the real ones, except that in the encoding the header is split by a version of _selectParseHeader that works on symbolic bytes (replays use the original)",
    "the websocket handshake of an authorized request is not followed; constant_time.bytes_eq and hmac.compare_digest mean equality",
    "the API token is ASCII",
]

V = voucher_name(0)
NEW = voucher_name(1)
SECRET = token_name(7)

PATHS = {
    "root": [],
    "root slash": [b""],
    "version": [b"version"],
    "list": [b"voucher"],
    "voucher": [b"voucher", V],
    "below a voucher": [b"voucher", V, b""],
    "unknown voucher": [b"voucher", NEW],
    "no voucher": [b"voucher", b"x"],
    "maintenance": [b"lease-maintenance"],
    "price": [b"calculate-price"],
    "replicate": [b"replicate"],
    "recover": [b"recover"],
    "nothing": [b"nothing"],
    "far": [b"voucher", b"..", b"replicate"],
}
METHODS = [b"GET", b"PUT", b"POST", b"HEAD", b"DELETE"]


def select(self, header):
    """HTTPAuthSessionWrapper._selectParseHeader on symbolic bytes."""
    header = SymBytes.of(header)
    # what follows the first space is what joining the other parts gives
    n = header.find(b" ")
    scheme, rest = (header, b"") if n < 0 else (header[:n], header[n + 1 :])
    scheme = scheme.lower()
    for fact in self._credentialFactories:
        if fact.scheme == scheme:
            return (fact, rest)
    return (None, None)


class World:
    def __init__(self, ctx, token):
        ctx.opaque_text = True
        self.ctx = ctx
        self.w = Wallet(ctx)
        p = self.w.patcher
        if not ctx.concrete:
            symtext.install(p)
            p.set(HTTPAuthSessionWrapper, "_selectParseHeader", select)
        web.install_web(ctx, p)
        self.effects = []
        p.set(WebSocketResource, "render", lambda _, request: self.effects.append("recover") or b"websocket")
        self.w.put("vouchers", number=V.decode(), created=str(NOW), state="redeemed", finished=str(NOW),
                   token_count=1, counter=1, expected_tokens=16, sequestered_count=0)
        self.w.put("unblinded-tokens", token=SECRET.decode(), redemption_group=1)
        self.w.put("redemption-groups", rowid=1, voucher=V.decode(), public_key=web.KEY, spendable=1)
        self.issuer = web.HeldIssuer()
        self.before = self.w.ready()

        def setup():
            self.effects.append("replicate")
            return Deferred()

        async def setup_replication():
            return await setup()

        self.root = web.tree(ctx, self.w.store, redeemer=self.issuer, config=web.Config({"default-token-count": "16"}, token=token), setup=setup_replication,
                             downloader=lambda cap: self.effects.append("download"))

    def request(self, where, method, headers):
        path = list(where)
        doc = None
        if path[:1] == [b"voucher"] and method == b"PUT":
            doc = {"voucher": NEW.decode()}
        elif path[:1] == [b"calculate-price"]:
            doc = {"version": 1, "sizes": [10]}
        body = b"" if doc is None else web.body_of(self.ctx, doc)
        r = web.Request(method, path, body, [web_type] + headers)
        web.serve(self.root, r)
        return r

    def judge(self, request, right, lenient=None, what=""):
        """A refused request is told so, and nothing else."""
        ctx = self.ctx
        changed = Not(no_change(self.before, self.w.state()))
        reached = bool(self.effects) or len(self.issuer.attempts) > 0
        if request.status == 401:
            ctx.cover("refused")
            ctx.check(Not(right), "the right token is accepted" + what)
            ctx.check(Not(changed), "a refused request changes nothing")
            ctx.check(not reached, "a refused request has no effect")
            ctx.check(web.over(request), "a refused request is answered")
            said = b"".join(b for b in request.written if type(b) is bytes)
            ctx.check(all(type(b) is bytes for b in request.written), "a refusal shows nothing of the wallet")
            for secret in (V, SECRET, b"redeemed"):
                ctx.check(secret not in said, "a refusal shows nothing of the wallet")
            return False
        ctx.cover("served")
        ctx.check(right if lenient is None else Or(right, lenient), "only the exact token is accepted" + what)
        return True


web_type = (b"content-type", b"application/json")


def symbolic_token(ctx, n):
    return symtext.text(ctx, "t", n, 0, 127)


def same(given, token):
    return given == token.encode("ascii") if len(given) == len(token) else False


def h_token(ctx, size, lo, hi):
    """Every token against every token."""
    token = symbolic_token(ctx, size)
    w = World(ctx, token)
    given = symtext.octets(ctx, "g", lo + ctx.choice("length", hi - lo + 1))
    where = ctx.pick("path", ["version", "voucher", "list"])
    method = ctx.pick("method", [b"GET", b"PUT"]) if where == "list" else b"GET"
    r = w.request(PATHS[where], method, [(b"authorization", b"tahoe-lafs " + given)])
    if w.judge(r, same(given, token)):
        ctx.check(r.status == 200, "the right token is served")


def h_header(ctx, size, length):
    """Every header."""
    token = symbolic_token(ctx, size)
    w = World(ctx, token)
    header = symtext.octets(ctx, "h", length)
    r = w.request(PATHS["voucher"], b"GET", [(b"authorization", header)])
    scheme = b"tahoe-lafs "
    n = len(scheme)
    if length == n + size:
        rest = And(*[a == b for a, b in zip(list(header[n:]), list(token.encode("ascii")))])
        right = And(header[:n] == scheme, rest)
        lower = header[:n].lower() if ctx.concrete else SymBytes.of(header[:n]).lower()
        lenient = And(lower == scheme, rest)
    else:
        right = lenient = False
    w.judge(r, right, lenient)


def h_places(ctx, credential):
    """Every place of the tree, every method."""
    token = symbolic_token(ctx, 4)
    w = World(ctx, token)
    right = False
    given = symtext.octets(ctx, "g", 4)
    if credential == "missing":
        headers = []
    elif credential == "empty":
        headers = [(b"authorization", b"")]
    elif credential == "other scheme":
        scheme = ctx.pick("scheme", [b"", b"Basic", b"Bearer", b"Digest", b"token", b"tahoe", b"tahoe-lafs2", b"tahoe-lafs:", b" tahoe-lafs", b"tahoe-lafs\t"])
        headers = [(b"authorization", scheme + b" " + given)]
    elif credential == "bare":
        headers = [(b"authorization", given)]
    elif credential == "no token":
        headers = [(b"authorization", b"tahoe-lafs" + ctx.pick("rest", [b"", b" ", b"  "]))]
    elif credential == "twice":
        other = symtext.octets(ctx, "o", 4)
        headers = [(b"authorization", b"tahoe-lafs " + other), (b"authorization", b"tahoe-lafs " + given)]
        right = Or(same(given, token), same(other, token))
    elif credential == "elsewhere":
        # cookies, forms and the like do not authorize
        headers = [(b"cookie", b"tahoe-lafs " + given), (b"x-authorization", b"tahoe-lafs " + given),
                   (b"proxy-authorization", b"tahoe-lafs " + given)]
    else:
        headers = [(b"authorization", b"tahoe-lafs " + given)]
        right = same(given, token)
    where = ctx.pick("where", list(PATHS) + ["any"])
    path = PATHS[where] if where != "any" else [symtext.octets(ctx, "p", 7)] + ([V] if ctx.flag("deeper") else [])
    method = ctx.pick("method", METHODS)
    r = w.request(path, method, headers)
    if credential == "twice":
        # which of two counts is left open
        w.judge(r, False, right)
    elif w.judge(r, right) and where in ("list", "voucher", "version", "maintenance") and method == b"GET":
        ctx.check(r.status == 200, "the right token is served")


CREDENTIALS = ["right or wrong", "missing", "empty", "other scheme", "bare", "no token", "twice", "elsewhere"]

HARNESSES = []
Q = ("quick",)
T = ("thorough",)


def add(fn, bounds, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(H(fn, params=p, bounds=bounds % p, covers=covers, tiers=tiers))


add(h_token, "any token of %(size)d characters against any of %(lo)d to %(hi)d", ["served", "refused"], size=1, lo=0, hi=3)
add(h_token, "any token of %(size)d characters against any of %(lo)d to %(hi)d", ["served", "refused"], size=5, lo=0, hi=8)
add(h_token, "any token of %(size)d characters against any of %(lo)d to %(hi)d", ["served", "refused"], Q, size=44, lo=42, hi=46)
add(h_token, "any token of %(size)d characters against any of %(lo)d to %(hi)d", ["served", "refused"], T, size=44, lo=0, hi=90)
for n in (0, 1, 4, 10, 11, 13, 14, 15):
    add(h_header, "any header of %(length)d bytes, any token of %(size)d characters", ["served", "refused"] if n == 14 else ["refused"], size=3, length=n)
add(h_header, "any header of %(length)d bytes, any token of %(size)d characters", ["served", "refused"], T, size=44, length=55)
for c in CREDENTIALS:
    add(h_places, "credential %(credential)s, any method and path", ["refused"] + (["served"] if c in ("right or wrong", "twice") else []), credential=c)
