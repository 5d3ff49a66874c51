"""The issuer's side of redemption: signatures, proofs and HTTP answers.

Symbolic runs replace the cryptographic library by its contract (a signature
is by one key over one token; a batch proof is accepted exactly if every
signature is by the claimed key over its own token); concrete replays use the
real library.
"""
import json

from twisted.internet.defer import Deferred, succeed
from twisted.python.failure import Failure
from twisted.python.url import URL
from twisted.web.client import ResponseDone
from twisted.web.http_headers import Headers

import challenge_bypass_ristretto as real

from _zkapauthorizer import controller as C
from _zkapauthorizer import model as M
from symx.env import Patcher
from symx.values import And, Not, Or

ROOT = URL.from_text("https://issuer.invalid/base")


class Bad(Exception):
    """What the library raises for text it cannot decode."""


class _Thing:
    def __init__(self, kind, *what):
        self.kind, self.what = kind, what

    def encode_base64(self):
        text = "%s:%s" % (self.kind, ",".join(str(w) for w in self.what))
        return text.encode("ascii").ljust(128, b".")


def model_library(world):
    """The contract of challenge_bypass_ristretto."""

    class Library:
        SecurityException = real.SecurityException
        DecodeException = real.DecodeException

    def decoder(kind, table):
        class Kind:
            @staticmethod
            def decode_base64(text):
                x = table(bytes(text))
                if x is None:
                    raise real.DecodeException()
                return x

        Kind.__name__ = kind
        return Kind

    class Token(_Thing):
        made = 0

        @classmethod
        def create(cls):
            cls.made += 1
            return cls("token", cls.made)

        @classmethod
        def decode_base64(cls, text):
            text = bytes(text)
            if not text.startswith(b"token:"):
                raise real.DecodeException()
            return cls("token", int(text[6:].rstrip(b".")))

        def blind(self):
            return _Thing("blinded", *self.what)

    class Proof:
        def __init__(self, spec):
            self.spec = spec

        @staticmethod
        def decode_base64(text):
            spec = world.proofs.get(bytes(text))
            if spec is None:
                raise real.DecodeException()
            return Proof(spec)

        def invalid_or_unblind(self, tokens, blinded_tokens, signed_tokens, public_key):
            if len(tokens) != len(blinded_tokens) or len(tokens) != len(signed_tokens):
                raise ValueError("Validation requires same number of tokens, blinded tokens, and signed tokens.")
            ok = [self.spec["about"] == tuple(s.what[0] for s in signed_tokens)]
            ok.append(self.spec["key"] == public_key.what[0])
            for t, b, s in zip(tokens, blinded_tokens, signed_tokens):
                key, over = world.signatures[s.what[0]]
                ok.append(key == public_key.what[0])
                ok.append(b.kind == "blinded" and b.what == over and b.what == t.what)
            if And(*ok):
                return [_Thing("unblinded", *t.what) for t in tokens]
            raise real.SecurityException("invalid batch proof")

    Library.RandomToken = Library.Token = Token
    Library.PublicKey = decoder("PublicKey", lambda t: _Thing("public", world.claims[t]) if t in world.claims else None)
    Library.SignedToken = decoder(
        "SignedToken", lambda t: _Thing("signed", t) if t in world.signatures else None
    )
    Library.BatchDLEQProof = Proof

    class Unblinded(_Thing):
        @classmethod
        def decode_base64(cls, text):
            return cls("unblinded", int(bytes(text)[10:].rstrip(b".")))

    Library.UnblindedToken = Unblinded
    return Library


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.signatures = {}  # encoded -> (key number, the blinded token it is over)
        self.proofs = {}
        self.claims = {}
        if ctx.concrete:
            self.lib = real
            self.keys = [real.random_signing_key() for _ in range(2)]
        else:
            self.lib = model_library(self)
            patcher = Patcher(ctx)
            patcher.builtins()
            patcher.replace(real, self.lib)

    def tokens(self, n):
        """Random tokens, as the wallet keeps them."""
        return [M.RandomToken(self.lib.RandomToken.create().encode_base64()) for _ in range(n)]

    def sign(self, blinded, key):
        """The encoded signature of an encoded blinded token by a key."""
        if self.ctx.concrete:
            return self.keys[key].sign(real.BlindedToken.decode_base64(blinded)).encode_base64()
        n = int(blinded[8:].rstrip(b"."))
        text = b"signed-%d" % len(self.signatures)
        self.signatures[text] = (key, (n,))
        return text

    def prove(self, blinded, signed, key):
        """The encoded proof that one key signed these in this order."""
        if self.ctx.concrete:
            k = self.keys[key]
            n = min(len(blinded), len(signed))
            return real.BatchDLEQProof.create(
                k,
                [real.BlindedToken.decode_base64(b) for b in blinded[:n]],
                [real.SignedToken.decode_base64(s) for s in signed[:n]],
            ).encode_base64()
        text = b"proof-%d" % len(self.proofs)
        n = min(len(blinded), len(signed))
        self.proofs[text] = {"key": key, "about": tuple(signed[:n])}
        return text

    def claim(self, key):
        """The encoded public key of a key."""
        if self.ctx.concrete:
            return real.PublicKey.from_signing_key(self.keys[key]).encode_base64()
        for text, k in self.claims.items():
            if type(k) is int and type(key) is int and k == key:
                return text
        text = b"public-%d" % len(self.claims)
        self.claims[text] = key
        return text

    def unblinds(self, random_token, key, unblinded):
        """Is this the unblinded form of the token's signature by the key?"""
        if self.ctx.concrete:
            u = real.UnblindedToken.decode_base64(unblinded.unblinded_token)
            if real.UnblindedToken.decode_base64(
                self.keys[key].rederive_unblinded_token(u.preimage()).encode_base64()
            ).encode_base64() != u.encode_base64():
                return False
            # the token that was blinded determines the preimage
            b = real.RandomToken.decode_base64(random_token.token_value)
            s = self.keys[key].sign(b.blind())
            p = real.BatchDLEQProof.create(self.keys[key], [b.blind()], [s])
            (mine,) = p.invalid_or_unblind([b], [b.blind()], [s], real.PublicKey.from_signing_key(self.keys[key]))
            return mine.encode_base64() == unblinded.unblinded_token
        n = int(random_token.token_value[6:].rstrip(b"."))
        return unblinded.unblinded_token == _Thing("unblinded", n).encode_base64()


class Response:
    def __init__(self, code, body):
        self.code = code
        self.body = body
        self.length = len(body)
        self.headers = Headers({})

    def deliverBody(self, protocol):
        protocol.dataReceived(self.body)
        protocol.connectionLost(Failure(ResponseDone()))


class Client:
    """The HTTP client: answers by a function of the request."""

    def __init__(self, answer):
        self.answer = answer
        self.requests = []

    def post(self, url, data=None, headers=None, **kw):
        request = json.loads(data)
        self.requests.append((url, request, headers))
        try:
            r = self.answer(request)
        except Exception:
            d = Deferred()
            d.errback(Failure())
            return d
        return succeed(r)


def redeemer(client):
    return C.RistrettoRedeemer(client, ROOT)
