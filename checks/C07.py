"""A pass authorises exactly one operation on one storage index."""
import base64

import challenge_bypass_ristretto as cbr
from allmydata.storage.common import storage_index_to_dir

from hyperlink import URL
from treq.client import HTTPClient

from allmydata.util.base32 import b2a

from symx.runner import H
from symx.symbytes import SymBytes
from symx.values import *

from _zkapauthorizer import controller
from _zkapauthorizer.model import Pass, UnblindedToken
from _zkapauthorizer.storage_common import MorePassesRequired
from checks.client_common import *
from checks.server_common import *
from checks.wallet_common import token_name

PROPERTY = "C07"
TITLE = "a pass authorises exactly one operation on one storage index"
ASSUMPTIONS = [
    "ideal signatures: a signature verifies exactly for the key, token and message it was made with (the Ristretto library is not verified; one harness runs the real library)",
    "Base64 is modelled as its definition over 6-bit groups in the symbolic run; the concrete replays use the real one",
]
ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
# Characters that stand for one symbolic Base64 digit each while the code
# formats, joins and encodes text.
MARKS = bytes([c for c in list(range(1, 9)) + list(range(14, 32)) + [127] + [124, 126, 94, 96, 123, 125]])


class Digits:
    """The symbolic Base64 digits behind the marks."""

    def __init__(self):
        self.of = {}
        self.texts = []

    def b64encode(self, s, altchars=None):
        if type(s) is not SymBytes:
            return base64_b64encode(s, altchars)
        for items, t in self.texts:
            if len(items) == len(s.items) and all(a is b for a, b in zip(items, s.items)):
                return t
        out = b""
        b = list(s.items)
        for i in range(0, len(b), 3):
            g = b[i : i + 3]
            n = len(g)
            g = g + [0] * (3 - n)
            six = [
                g[0] // 4,
                (g[0] % 4) * 16 + g[1] // 16,
                (g[1] % 16) * 4 + g[2] // 64,
                g[2] % 64,
            ]
            for d in six[: n + 1]:
                if is_sym(d):
                    c = MARKS[len(self.of)]
                    self.of[c] = d
                else:
                    c = ALPHABET[d]
                out += bytes([c])
            out += b"=" * (3 - n)
        self.texts.append((list(s.items), out))
        return out

    def items(self, text):
        """Every character as ("digit", value) or ("char", code)."""
        out = []
        for c in text:
            if c in self.of:
                out.append(("digit", self.of[c]))
            elif c in ALPHABET:
                out.append(("digit", ALPHABET.index(c)))
            else:
                out.append(("char", c))
        return out


base64_b64encode = base64.b64encode


def same(a, b):
    if len(a) != len(b):
        return False
    return And(*[x[0] == y[0] and (x[1] == y[1]) for x, y in zip(a, b)])


def storage_index(ctx, name, n):
    bs = [ctx.int("%s.%d" % (name, i), 0, 255) for i in range(n)]
    return bytes(bs) if ctx.concrete else SymBytes(bs)


class Captured(BaseException):
    pass


OPS = ["allocate_buckets", "add_lease", "writev"]


class FakeKeyRing:
    """Ideal signatures, with every failure the library could report."""

    def __init__(self, ctx, patcher):
        self.ctx = ctx
        self.verified = []
        ring = self

        class Preimage:
            def __init__(self, name):
                self.name = name

            @classmethod
            def decode_base64(cls, b):
                if ring.bad_preimage(b):
                    raise cbr.exceptions.DecodeException() if hasattr(cbr, "exceptions") else ValueError("bad")
                return cls(b)

            def encode_base64(self):
                return self.name

        class Signature(Preimage):
            @classmethod
            def decode_base64(cls, b):
                if ring.bad_signature(b):
                    raise ValueError("bad signature encoding")
                return cls(b)

        class VKey:
            def __init__(self, name):
                self.name = name

            def invalid_sha512(self, sig, message):
                ring.verified.append(message)
                return ring.invalid(self.name, sig.name, message)

        class UToken:
            def __init__(self, name):
                self.name = name

            def derive_verification_key_sha512(self):
                return VKey(self.name)

        self.UToken = UToken
        patcher.replace(cbr.TokenPreimage, Preimage)
        patcher.replace(cbr.VerificationSignature, Signature)

    def rederive_unblinded_token(self, preimage):
        if self.no_token(preimage.name):
            raise ValueError("no such token")
        return self.UToken(preimage.name)

    bad_preimage = bad_signature = no_token = staticmethod(lambda b: False)


def server_message(ctx, op, si, digits):
    """The message the server verifies a pass against."""
    w = World(ctx, 100)
    p = Patcher(ctx)
    p.replace(base64_b64encode, digits.b64encode, base64, "b64encode")
    if not ctx.concrete:
        p.replace(storage_index_to_dir, lambda s: storage_index_to_dir(SI))
        p.replace(b2a, lambda s: b"(for a log message)")
    ring = FakeKeyRing(ctx, p)

    def invalid(name, sig, message):
        raise Captured(message)

    ring.invalid = invalid
    set_key(w.server, ring)
    some = Pass(token_name(1)[-88:], token_name(2)[-88:]).pass_bytes
    try:
        if op == "allocate_buckets":
            w.server.remote_allocate_buckets([some], si, RENEW, CANCEL, {0}, 100, w.canary)
        elif op == "add_lease":
            w.server.remote_add_lease([some], si, RENEW, CANCEL)
        else:
            w.server.remote_slot_testv_and_readv_and_writev(
                [some], si, (WRITE_ENABLER, RENEW, CANCEL), {0: ([], [(0, b"x")], None)}, []
            )
    except Captured as e:
        m = e.args[0]
    else:
        ctx.check(False, "the server checks the passes it is given")
    p.restore()
    if w.patcher is not None:
        w.patcher.restore()
    return m


def set_key(server, ring):
    """Give the server ideal keys in place of its real one."""
    for k, v in list(vars(server).items()):
        if isinstance(v, cbr.SigningKey):
            object.__setattr__(server, k, ring)


def client_message(ctx, op, si, digits):
    p = Patcher(ctx)
    p.replace(base64_b64encode, digits.b64encode, base64, "b64encode")
    if not ctx.concrete:
        p.builtins()
    got = []

    def get_passes(message, n):
        got.append(message)
        raise RuntimeError("stop here")

    def handler(name, *a):
        return {"share_sizes": {0: 100}, "stat_shares": [{}]}[name]

    c = ZKAPAuthorizerStorageClient(100, lambda: Ref(handler), get_passes, Clock())
    if op == "allocate_buckets":
        outcome(c.allocate_buckets(si, RENEW, CANCEL, {0}, 100, None))
    elif op == "add_lease":
        outcome(c.add_lease(si, RENEW, CANCEL))
    else:
        outcome(
            c.slot_testv_and_readv_and_writev(
                si, (WRITE_ENABLER, RENEW, CANCEL), {0: ([], [(0, b"x")], None)}, []
            )
        )
    p.restore()
    ctx.check(len(got) == 1, "the client asks for passes")
    return got[0]


def h_bind(ctx, lengths):
    op1 = ctx.pick("op1", OPS)
    op2 = ctx.pick("op2", OPS)
    n1 = ctx.pick("n1", lengths)
    n2 = ctx.pick("n2", lengths)
    si1 = storage_index(ctx, "si1", n1)
    d1, d2 = Digits(), Digits()
    if ctx.flag("same request"):
        ctx.assume(op1 == op2 and n1 == n2)
        si2, d2 = si1, d1
    else:
        si2 = storage_index(ctx, "si2", n2)
        if op1 == op2 and n1 == n2:
            if ctx.concrete:
                ctx.assume(si1 != si2)
            else:
                ctx.assume(Not(si1.eq(si2)))
    m1 = client_message(ctx, op1, si1, d1)
    m2 = server_message(ctx, op2, si2, d2)
    if ctx.concrete:
        equal = m1 == m2
    else:
        equal = same(d1.items(m1), d2.items(m2))
    if si1 is si2:
        ctx.cover("same")
        ctx.check(equal, "client and server derive the same message for the same request")
    else:
        ctx.cover("different")
        ctx.check(Not(equal), "different requests have different messages", (op1, op2))
    ctx.observe("equal", equal)


def h_wire(ctx):
    """What the client encodes is what the server decodes"""
    n = 3
    shift = ctx.choice("length", 1)
    digits = bytes(c for c in range(256) if c not in ALPHABET and c != 32)
    mark = {}
    passes = []
    for i in range(1):
        parts = []
        for what in ("preimage", "signature"):
            t = b""
            for j in range(88):
                v = ctx.int("%s%d.%d" % (what, i, j), 0, 63)
                if ctx.concrete:
                    c = ALPHABET[v]
                else:
                    c = digits[len(mark)]
                    mark[c] = v
                t += bytes([c])
            parts.append(t)
        passes.append(parts)

    def read(t):
        if ctx.concrete:
            return list(t)
        return [mark[c] if c in mark else ("char", c) for c in t]

    w = World(ctx, 100)
    p = Patcher(ctx)
    ring = FakeKeyRing(ctx, p)
    seen = []

    def invalid(name, sig, message):
        seen.append((name, sig))
        return False

    ring.invalid = invalid
    set_key(w.server, ring)
    wire = [Pass(a, b).pass_bytes for a, b in passes]
    w.add_share(0, "immutable", 100, [(5, b"o" * 32)])
    w.server.remote_add_lease(wire, SI, RENEW, CANCEL)
    ctx.check(len(seen) == len(passes), "every pass is checked once")
    for (a, b), (x, y) in zip(passes, seen):
        ctx.check(And(*[p == q for p, q in zip(read(a), read(x))]) if len(a) == len(x) else False, "the preimage survives")
        ctx.check(And(*[p == q for p, q in zip(read(b), read(y))]) if len(b) == len(y) else False, "the signature survives")
    ctx.check(w.spender.spent == [a for a, b in passes], "the pass spent is the pass sent")
    ctx.cover("sent")
    ctx.observe("n", len(seen))


def h_bad(ctx, n, wild):
    """Any mixture of passes, wrong in any way"""
    w = World(ctx, 100)
    p = Patcher(ctx)
    ring = FakeKeyRing(ctx, p)
    kind = {}
    wire, good, bad = [], [], []
    for i in range(n):
        pre, sig = b"P%087d" % i, b"S%087d" % i
        k = ctx.pick(
            "kind%d" % i,
            ["valid", "preimage", "signature", "no token", "wrong", "crash"] + (["form"] if wild else []),
        )
        kind[pre] = kind[sig] = k
        b = pre + b" " + sig
        if k == "form":
            b = ctx.pick(
                "form%d" % i,
                [
                    b"",
                    b" ",
                    pre,
                    pre + b" ",
                    pre + sig + b"x",
                    pre + b"\t" + sig,
                    pre + b"  " + sig[1:],
                    b + b" ",
                    b" " + b,
                    pre + b" " + sig + b" " + sig,
                    pre[1:] + b" " + sig,
                    pre + b" " + sig[1:],
                    bytes(range(256)),
                ],
            )
            ctx.cover("not a pass at all")
        wire.append(b)
        (good if k == "valid" else bad).append(i)
    ring.bad_preimage = lambda b: kind.get(b) == "preimage"
    ring.bad_signature = lambda b: kind.get(b) == "signature"
    ring.no_token = lambda b: kind.get(b) == "no token"

    def invalid(name, sig, message):
        if kind.get(name) == "crash":
            raise RuntimeError("the library failed")
        return not (kind.get(name) == "valid" and kind.get(sig) == "valid")

    ring.invalid = invalid
    set_key(w.server, ring)
    size = ctx.int("size", 1, 100 * n + 100)
    if ctx.concrete:
        w.add_share(0, "immutable", size, [(5, b"o" * 32)])
    else:
        w.add_share(0, "immutable", size, [(5, b"o" * 32)])
    need = ceil_div(size, 100)
    try:
        w.server.remote_add_lease(wire, SI, RENEW, CANCEL)
    except MorePassesRequired as e:
        ctx.cover("refused")
        ctx.check(e.valid_count == len(good), "exactly the valid passes count", (e.valid_count, good))
        ctx.check(e.required_count == need, "the price is reported")
        ctx.check(sorted(e.signature_check_failed) == bad, "exactly the invalid ones are named", bad)
        ctx.check(Not(need <= len(good)), "enough valid passes are enough")
    else:
        ctx.cover("accepted")
        ctx.check(need <= len(good), "only valid passes pay")
        ctx.check(w.spender.spent == [b"P%087d" % i for i in good], "exactly the valid passes are spent")
    ctx.observe("valid", len(good))


def h_real(ctx):
    """The real library: a pass of one request offered for another"""
    w = World(ctx, 100)
    w.add_share(0, "immutable", 100, [(5, b"o" * 32)])
    other_si = bytes(reversed(SI)) if SI != bytes(reversed(SI)) else b"z" * 16
    made_for = ctx.pick("made for", ["this", "another index", "upload", "write", "another key"])
    good, other = keys()
    msgs = {"another index": ("add_lease", other_si), "upload": ("allocate_buckets", SI), "write": ("writev", SI)}
    op, si = msgs.get(made_for, ("add_lease", SI))
    m = client_message(ctx, op, si, Digits())
    token = cbr.TokenPreimage.decode_base64(base64.b64encode(b"\x07" * 64))
    ut = (other if made_for == "another key" else good).rederive_unblinded_token(token)
    [a_pass] = make_redeemer().tokens_to_passes(m, [UnblindedToken(ut.encode_base64())])
    try:
        w.server.remote_add_lease([a_pass.pass_bytes], SI, RENEW, CANCEL)
    except MorePassesRequired as e:
        ctx.cover("refused")
        ctx.check(made_for != "this", "a pass made for this request is valid")
        ctx.check(sorted(e.signature_check_failed) == [0], "it is named as invalid")
    else:
        ctx.cover("accepted")
        ctx.check(made_for == "this", "only a pass made for this request is valid", made_for)
    ctx.observe("for", made_for)


def make_redeemer():
    return controller.RistrettoRedeemer(
        treq=HTTPClient(agent=None), api_root=URL.from_text("http://issuer.example/")
    )


HARNESSES = [
    H(h_bind, name="binding", params=dict(lengths=[16]), bounds="both operations; two storage indexes of 16 arbitrary bytes", covers=["same", "different"]),
    H(h_bind, name="binding-lengths", params=dict(lengths=[0, 1, 2, 15, 16, 17]), bounds="storage indexes of the given lengths, arbitrary bytes", covers=["same", "different"], tiers=("thorough",)),
    H(h_wire, bounds="one pass of arbitrary Base64 text", covers=["sent"]),
    H(h_bad, name="bad", params=dict(n=3, wild=False), bounds="3 passes, each valid or failing in any of 5 ways; any share size up to the price of 4", covers=["refused", "accepted"]),
    H(h_bad, name="malformed", params=dict(n=2, wild=True), bounds="2 passes, valid, failing, or not of the form of a pass (13 forms)", covers=["refused", "accepted", "not a pass at all"]),
    H(h_bad, name="bad", params=dict(n=5, wild=False), bounds="5 passes", covers=["refused", "accepted"], tiers=("thorough",)),
    H(h_real, bounds="one pass made for one of five requests", covers=["refused", "accepted"]),
]
