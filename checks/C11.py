"""Only tokens from allowed issuers are spendable; others are kept aside."""
import json

from symx.runner import H
from symx.values import *

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock

from _zkapauthorizer import controller as C
from _zkapauthorizer import model as M
from _zkapauthorizer.storage_common import get_configured_allowed_public_keys
from checks import issuer_common as I
from checks.client_common import outcome
from checks.wallet_common import *

PROPERTY = "C11"
TITLE = "only tokens from allowed issuers are spendable"
ASSUMPTIONS = [
    "the cryptographic library's contract: a batch proof is accepted exactly if every signature is by the claimed key over its own token (concrete replays use the real library)",
]

# keys that differ only slightly: prefixes, case, white space, nothing
KEYS = ["KeyA", "KeyAA", "keya", "Key", "KeyA "]


class Config:
    def __init__(self, **options):
        self.options = options

    def get_config(self, section, option, default=None, boolean=False):
        assert section == "storageclient.plugins.privatestorageio-zkapauthz-v2", section
        return self.options.get(option, default)


class Steps:
    """A redeemer whose answers are by the keys it is told."""

    def __init__(self, keys):
        self.keys = list(keys)
        self.given = []

    def random_tokens_for_voucher(self, voucher, counter, count):
        return [M.RandomToken(b"R%s%03d%03d" % (voucher.number, counter, i) + b"=" * (128 - 51)) for i in range(count)]

    async def redeemWithCounter(self, voucher, counter, random_tokens):
        if not self.keys:
            return await Deferred()
        key = self.keys.pop(0)
        got = [M.UnblindedToken(b"U" + t.token_value[1:]) for t in random_tokens]
        self.given.append((key, got))
        return C.RedemptionResult(got, key)


def h_steps(ctx, groups, total, extra):
    """A whole redemption, each step signed by some key."""
    w = Wallet(ctx)
    # other tokens that are already in the wallet
    usable, aside = ctx.bool("older usable"), ctx.bool("older aside")
    w.put("redemption-groups", usable, rowid=1, voucher="v", spendable=1, public_key="old")
    w.put("unblinded-tokens", usable, token=token_name(1).decode(), redemption_group=1)
    w.put("redemption-groups", aside, rowid=2, voucher="v", spendable=0, public_key="old")
    w.put("unblinded-tokens", aside, token=token_name(2).decode(), redemption_group=2)
    w.ready()
    allowed = {k for i, k in enumerate(KEYS[:extra]) if ctx.flag("allowed%d" % i)}
    keys = [ctx.pick("key%d" % g, KEYS[:extra]) for g in range(groups)]
    red = Steps(keys)
    c = C.PaymentController(Clock(), w.store, red, total, allowed_public_keys=allowed, num_redemption_groups=groups)
    v = voucher_name(0)
    d = Deferred.fromCoroutine(c.redeem(v))
    ctx.check(outcome(d)[0] == "value", "the redemption goes through")
    ctx.cover("redeemed")
    good = [t for k, got in red.given for t in got if k in allowed]
    bad = [t for k, got in red.given for t in got if k not in allowed]
    if good and bad:
        ctx.cover("mixed")
    older = Ite(usable, 1, 0)
    ctx.check(len(red.given) == groups, "progress advances whatever the key")
    state = w.store.get(v).state
    ctx.check(isinstance(state, M.Redeemed), "the voucher is redeemed whatever the keys")
    ctx.check(state.token_count == len(good), "only usable tokens are counted for the voucher")
    ctx.check(w.store.count_unblinded_tokens() == older + len(good), "tokens of other keys are not counted")
    for t in good + bad:
        ctx.check(
            B(has_row(w.state(), "unblinded-tokens", token=t.unblinded_token.decode())), "every token is kept"
        )
    n = older + len(good)
    got = w.store.get_unblinded_tokens(n)
    ctx.check(len(got) == n, "tokens of allowed keys can be spent at once")
    for t in got:
        ctx.check(t in good or t.unblinded_token == token_name(1), "only tokens of allowed keys are handed out")
    try:
        w.store.get_unblinded_tokens(1)
    except M.NotEnoughTokens:
        pass
    else:
        ctx.check(False, "tokens of other keys are never handed out")
    ctx.observe("tokens", [len(good), len(bad)])




def h_config(ctx):
    """The allow-list is exactly what is configured."""
    n = 1 + ctx.choice("keys", 4)
    listed = [ctx.pick("key%d" % i, KEYS[:4]) for i in range(n)]
    got = get_configured_allowed_public_keys(Config(**{"allowed-public-keys": ",".join(listed)}))
    ctx.cover("read")
    ctx.check(got == set(listed), "the configured keys and no others")


def h_announced(ctx):
    """A server with another issuer is not used."""
    urls = ["https://issuer.example/", "https://issuer.example", "https://issuer.example/x", "http://issuer.example/", "https://Issuer.example/"]
    mine, theirs = ctx.pick("configured", urls), ctx.pick("announced", urls + [None])
    ann = None if theirs is None else {"ristretto-issuer-root-url": theirs}
    try:
        r = C.get_redeemer("privatestorageio-zkapauthz-v2", Config(**{"redeemer": "ristretto", "ristretto-issuer-root-url": mine}), ann, None)
    except C.IssuerConfigurationMismatch:
        ctx.cover("refused")
        ctx.check(theirs is not None and theirs != mine, "the configured issuer is accepted")
    else:
        ctx.cover("accepted")
        ctx.check(theirs is None or theirs == mine, "another issuer is refused")
        ctx.check(r._api_root.to_text() == C.URL.from_text(mine).to_text(), "the configured issuer is used")


def h_signatures(ctx, n):
    """Tokens come only of signatures by the claimed key over the tokens sent."""
    w = I.World(ctx)
    count = 1 + ctx.choice("tokens", n)
    tokens = w.tokens(count)
    claimed = ctx.int("claimed key", 0, 1)
    prover = ctx.int("proving key", 0, 1)
    m = ctx.choice("signatures", n + 2)
    by = [ctx.int("signature%d by" % i, 0, 1) for i in range(m)]
    swapped = count >= 2 and m >= 2 and ctx.flag("swapped")
    elsewhere = ctx.flag("proof of other signatures")
    sent = []

    def answer(request):
        blinded = [t.encode("ascii") for t in request["redeemTokens"]]
        sent.append((request["redeemVoucher"], request["redeemCounter"], len(blinded)))
        over = (blinded * (n + 2))[:m]
        signed = [w.sign(b, k) for b, k in zip(over, by)]
        if swapped:
            signed[0], signed[1] = signed[1], signed[0]
        about = signed
        if elsewhere:
            about = [w.sign(b, prover) for b in over]
            if not ctx.concrete:
                w.signatures[b"other"] = (prover, ())
                about = [b"other"] * len(signed)
            elif about == signed:
                # signatures are deterministic: prove something else
                extra = w.lib.RandomToken.create().blind()
                over = [extra.encode_base64()] * len(over)
                about = [w.sign(b, prover) for b in over]
        proof = w.prove(over, about, prover)
        return I.Response(
            200,
            json.dumps(
                {
                    "success": True,
                    "signatures": [s.decode("ascii") for s in signed],
                    "proof": proof.decode("ascii"),
                    "public-key": w.claim(claimed).decode("ascii"),
                }
            ).encode("ascii"),
        )

    client = I.Client(answer)
    counter = 3
    voucher = M.Voucher(voucher_name(0), expected_tokens=100)
    kind, got = outcome(Deferred.fromCoroutine(I.redeemer(client).redeemWithCounter(voucher, counter, tokens)))
    ctx.check(sent == [(voucher.number.decode(), counter, count)], "the step asked for is the one sent, once, for every token")
    sound = And(m == count, not swapped, not elsewhere or m == 0, prover == claimed, *[k == claimed for k in by])
    if kind == "value":
        ctx.cover("tokens")
        ctx.check(sound, "only signatures by the claimed key over the tokens sent are accepted")
        ctx.check(got.public_key == list(w.claims)[0].decode() if w.claims else got.public_key.encode() == w.claim(claimed), "the key is the claimed one")
        ctx.check(len(got.unblinded_tokens) == count, "one token for each sent")
        for t, u in zip(tokens, got.unblinded_tokens):
            ctx.check(w.unblinds(t, claimed, u), "each token is the unblinded form of its own signature")
    else:
        ctx.cover("refused")
        ctx.check(Not(sound), "a sound answer is accepted", detail=str(got))


def h_blinded(ctx):
    """What is sent to the issuer is blinded."""
    w = I.World(ctx)
    tokens = w.tokens(2)
    client = I.Client(lambda request: I.Response(200, b"{}"))
    voucher = M.Voucher(voucher_name(0), expected_tokens=100)
    outcome(Deferred.fromCoroutine(I.redeemer(client).redeemWithCounter(voucher, 0, tokens)))
    ctx.cover("sent")
    ((url, request, headers),) = client.requests
    ctx.check(url == I.ROOT.child("v1", "redeem").to_text(), "the redemption address")
    for t in tokens:
        ctx.check(t.token_value.decode() not in json.dumps(request), "a random token is not revealed")
        blinded = w.lib.RandomToken.decode_base64(t.token_value).blind().encode_base64().decode()
        ctx.check(blinded in request["redeemTokens"], "its blinded form is sent")


HARNESSES = []
Q = ("quick",)
T = ("thorough",)


def add(fn, bounds, covers, tiers=("quick", "thorough"), **p):
    HARNESSES.append(H(fn, params=p, bounds=bounds % p, covers=covers, tiers=tiers))


B1 = "%(groups)d steps, %(total)d tokens, %(extra)d keys, any allow-list"
add(h_steps, B1, ["redeemed", "mixed"], Q, groups=2, total=3, extra=3)
add(h_steps, B1, ["redeemed", "mixed"], T, groups=3, total=4, extra=5)
add(h_config, "up to 4 keys of 4", ["read"])
add(h_announced, "5 addresses", ["refused", "accepted"])
add(h_signatures, "up to %(n)d tokens, any number of signatures up to %(n)d + 1, 2 keys", ["tokens", "refused"], Q, n=2)
add(h_signatures, "up to %(n)d tokens, any number of signatures up to %(n)d + 1, 2 keys", ["tokens", "refused"], T, n=4)
add(h_blinded, "2 tokens", ["sent"])
