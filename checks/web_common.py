"""Requests against the real resource tree, without a network."""
import json

import pyutil.mathutil

from symx.env import ModuleView
from symx.values import IntShim

from twisted.internet.defer import Deferred
from twisted.web import http
from twisted.web.error import UnsupportedMethod
from twisted.web.http_headers import Headers
from twisted.web.resource import Resource, getChildForRequest
from twisted.web.server import NOT_DONE_YET
from twisted.web.test.requesthelper import DummyRequest

from _zkapauthorizer import resource as R


class Body(bytes):
    """The serialization of a JSON document (kept as the document itself)."""

    document = None


class Text(str):
    """The same before it is encoded."""

    def encode(self, encoding="utf-8", errors="strict"):
        b = Body(b"{json}")
        b.document = self.document
        return b


def body_of(ctx, document, raw=None):
    """A request body: the given bytes, or the serialization of a document."""
    if raw is not None:
        return raw
    if ctx.concrete:
        return json.dumps(document).encode("utf-8")
    b = Body(b"{json}")
    b.document = document
    return b


def sym_dumps(obj, **kw):
    if kw.get("indent") is None:
        t = Text("{json}")
        t.document = jsonable(obj)
        return t
    return json.dumps(obj, **kw)


def jsonable(o):
    """Refuse what JSON cannot express."""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, dict):
        return {k if isinstance(k, str) else str(k): jsonable(v) for k, v in o.items()}
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


REAL_LOADS, REAL_DUMPS = json.loads, json.dumps


def sym_loads(data, **kw):
    if isinstance(data, (Body, Text)):
        return data.document
    return REAL_LOADS(data, **kw)


def child(self, path, request):
    """Resource.getChildWithDefault, without hashing the path."""
    for name, found in self.children.items():
        if name == path:
            return found
    return self.getChild(path, request)


def install_web(ctx, patcher):
    install_json(ctx, patcher)
    if not ctx.concrete:
        patcher.set(Resource, "getChildWithDefault", child)
        patcher.set(pyutil.mathutil, "int", IntShim)


def install_json(ctx, patcher):
    if ctx.concrete:
        return
    patcher.replace(json.loads, sym_loads)
    patcher.replace(json.dumps, sym_dumps)
    patcher.replace(json, ModuleView(json, {"loads": sym_loads, "dumps": sym_dumps}))


class Content:
    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d, self.data = self.data, b""
        return d

    def seek(self, *a):
        pass

    def getvalue(self):
        return self.data


class Request(DummyRequest):
    def __init__(self, method, path, body=b"", headers=()):
        DummyRequest.__init__(self, list(path))
        self.method = method
        self.content = Content(body)
        self.uri = b"/" + b"/".join(p for p in path if type(p) is bytes)
        self.requestHeaders = Headers()
        for k, v in headers:
            if type(v) is bytes:
                self.requestHeaders.addRawHeader(k, v)
            else:
                self.requestHeaders._rawHeaders.setdefault(k.lower(), []).append(v)
        self.clientproto = b"HTTP/1.1"
        self.startedWriting = 0
        self.failure = None

    def getHeader(self, name):
        return self.requestHeaders.getRawHeaders(name, [None])[-1]

    def getAllHeaders(self):
        return {}

    def redirect(self, url):
        self.setResponseCode(http.FOUND)

    def processingFailed(self, reason):
        self.failure = reason
        return reason

    def render(self, resource):
        try:
            body = resource.render(self)
        except UnsupportedMethod:
            self.setResponseCode(http.NOT_ALLOWED)
            body = b"not allowed"
        if body is NOT_DONE_YET or isinstance(body, int):
            return
        if not isinstance(body, bytes):
            raise TypeError("a resource rendered %r" % (body,))
        self.write(body)
        self.finish()

    @property
    def status(self):
        return self.responseCode or 200

    def answer(self):
        """The document of the reply."""
        if len(self.written) == 1 and isinstance(self.written[0], Body):
            return self.written[0].document
        return REAL_LOADS(b"".join(self.written))


class Failed(Exception):
    pass


def traverse(root, request):
    return getChildForRequest(root, request)


def serve(root, request):
    """Serve a request as a site would.

    :return: the exception the server had to answer with an internal error,
        or None
    """
    try:
        request.render(traverse(root, request))
    except Exception as e:
        request.failure = e
    if request.failure is not None:
        request.responseCode = 500
        return getattr(request.failure, "value", request.failure)
    return None


def over(request):
    return request.finished == 1


# -- the plugin's whole web tree -----------------------------------------------------

TOKEN = "dG9rZW4-YXBpLXRva2VuLW9mLXRoZS1ub2RlLTAwMDA="
AUTH = (b"authorization", b"tahoe-lafs " + TOKEN.encode("ascii"))
KEY = "the key"


class Config:
    """A node's configuration."""

    def __init__(self, values=(), token=TOKEN):
        self.values = {"allowed-public-keys": KEY, "redeemer": "non"}
        self.values.update(values)
        self.token = token

    def get_config(self, section, option, default=None, boolean=False):
        return self.values.get(option, default)

    def get_private_config(self, name, default=None):
        assert name == "api_auth_token"
        return self.token


class HeldIssuer:
    """A redeemer whose attempts wait to be decided."""

    def __init__(self):
        self.attempts = []
        self.made = 0

    def random_tokens_for_voucher(self, voucher, counter, count):
        from _zkapauthorizer.model import RandomToken

        self.made += count
        return [RandomToken(b"R%0127d" % (self.made - i)) for i in range(count)]

    async def redeemWithCounter(self, voucher, counter, random_tokens):
        d = Deferred()
        self.attempts.append((voucher.number, counter, list(random_tokens), d))
        return await d

    def tokens_to_passes(self, message, unblinded_tokens):
        raise NotImplementedError


def tree(ctx, store, redeemer=None, config=None, clock=None, downloader=None, setup=None):
    from twisted.internet.task import Clock

    async def no_setup():
        raise NotImplementedError

    return R.from_configuration(
        config or Config(),
        store,
        downloader or (lambda cap: None),
        setup or no_setup,
        redeemer or HeldIssuer(),
        clock or Clock(),
    )
