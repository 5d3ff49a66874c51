"""Requests to the grid: what is asked, repeated, returned and reported."""
import io
import json
import os

import treq

from symx.env import ModuleView, Patcher, quiet_eliot
from symx.runner import H
from symx.values import *

from hyperlink import DecodedURL, URL
from tahoe_capabilities import (
    danger_real_capability_string,
    readable_from_string,
    readonly_directory_from_string,
    writeable_directory_from_string,
)
from twisted.internet.defer import Deferred, fail, succeed
from twisted.internet.error import ConnectionLost, ConnectionRefusedError
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath

from _zkapauthorizer import tahoe as T
from checks.disk_common import Disk, Killed
from checks import web_common as web

quiet_eliot()

PROPERTY = "C28"
TITLE = "grid requests are repeated only when they should be and do not leak capabilities"
ASSUMPTIONS = [
    "the node's web API is at the root of the URL in node.url, as Tahoe-LAFS writes it",
    "treq and the HTTP agent are stand-ins: a request either fails or is answered with a status and a complete text, and the content of a download arrives in chunks of which any may be the last",
    "a repetition is made without a delay (nothing bounds how many are made)",
]

A, B = "a" * 26, "b" * 52
WRITE = [
    writeable_directory_from_string("URI:DIR2:%s:%s" % ("v" * 26, B)),
    writeable_directory_from_string("URI:DIR2-MDMF:%s:%s" % ("w" * 26, B)),
]
DIRS = [
    WRITE[0].reader,
    WRITE[1].reader,
    readonly_directory_from_string("URI:DIR2-RO:%s:%s" % ("x" * 26, B)),
]
DATA = [
    readable_from_string("URI:CHK:%s:%s:1:1:10" % ("y" * 26, B)),
    readable_from_string("URI:LIT:krugkidfnzsc4"),
    readable_from_string("URI:SSK-RO:%s:%s" % ("z" * 26, B)),
]
MORE = readonly_directory_from_string("URI:DIR2-RO:%s:%s" % ("q" * 26, B))
NEW = "URI:DIR2:%s:%s" % ("n" * 26, B)
MADE = "URI:CHK:%s:%s:3:10:77" % ("m" * 26, B)
NAMES = ["snapshot", "event-stream-17", "a name/with ? and #"]
CONTENT = b"0123456789abcdef"

NO_SERVERS = "Traceback...\nallmydata.interfaces.NoServersError: no servers\n"
NOT_ENOUGH = "Traceback...\nallmydata.mutable.common.NotEnoughServersError: Ran out of\n"
NOT_WRITEABLE = "Traceback...\nallmydata.mutable.common.NotWriteableError: \n"
NOT_A_DIRECTORY = "400 - Files have no children named 'x'"
NO_NODE = "No such child: allmydata.interfaces.NoSuchChildError"

TEXTS = [None, NO_SERVERS, NOT_ENOUGH, NOT_WRITEABLE, NOT_A_DIRECTORY, NO_NODE, ""]


def listing(ctx, size):
    children = {
        "snapshot": ["filenode", {"size": size, "ro_uri": MADE, "mutable": False}],
        "more": ["dirnode", {"ro_uri": danger_real_capability_string(MORE), "rw_uri": NEW}],
    }
    return ["dirnode", {"children": children, "mutable": True}]


class Answer:
    def __init__(self, code, text, document=None):
        self.code = code
        self.text = text
        self.document = document


class Document(str):
    document = None


class DocumentBytes(bytes):
    document = None

    def decode(self, *a):
        s = Document("[listing]")
        s.document = self.document
        return s


def sym_loads(data, **kw):
    if isinstance(data, Document):
        return data.document
    return web.REAL_LOADS(data, **kw)


class Lost(Exception):
    """Something else went wrong with the connection."""


class Agent:
    """An HTTP client whose answers are decided by the harness."""

    def __init__(self, ctx, answers):
        self.ctx = ctx
        self.answers = answers
        self.requests = []

    def get(self, url, **kw):
        return self.request("GET", url, **kw)

    def put(self, url, data=None, **kw):
        return self.request("PUT", url, data=data, **kw)

    def post(self, url, data=None, **kw):
        return self.request("POST", url, data=data, **kw)

    def delete(self, url, **kw):
        return self.request("DELETE", url, **kw)

    def request(self, method, url, data=None, **kw):
        n = len(self.requests)
        if n >= len(self.answers):
            # not expected to be made
            self.requests.append((method, url, None))
            return Deferred()
        answer = self.answers[n]
        if hasattr(data, "read"):
            if answer == "lost midway":
                data = data.read(3)
            elif answer in ("refused", "lost"):
                data = None
            else:
                data = data.read()
        self.requests.append((method, url, data))
        if answer == "refused":
            return fail(ConnectionRefusedError())
        if answer == "lost" or answer == "lost midway":
            return fail(ConnectionLost())
        return succeed(answer)


def as_url(url):
    if isinstance(url, URL):
        return DecodedURL(url)
    if isinstance(url, bytes):
        url = url.decode("ascii")
    if isinstance(url, str):
        return DecodedURL.from_text(url)
    return url


def content(response):
    if response.document is not None:
        b = DocumentBytes(b"[listing]")
        b.document = response.document
        return succeed(b)
    return succeed(response.text.encode("utf-8"))


class Grid:
    def __init__(self, ctx, answers, disk=None):
        patcher = Patcher(ctx)
        patcher.builtins()
        view = ModuleView(
            treq,
            {
                "content": content,
                "text_content": lambda r, *a: content(r).addCallback(lambda b: b.decode("utf-8")),
                "collect": self.collect,
            },
        )
        patcher.replace(treq, view)
        for name in ("content", "text_content", "collect"):
            patcher.replace(getattr(treq, name), getattr(view, name))
        if not ctx.concrete:
            patcher.replace(json.loads, sym_loads)
            patcher.replace(json, ModuleView(json, {"loads": sym_loads}))
        self.ctx = ctx
        self.disk = disk or Disk(ctx, patcher, 0, 0)
        with self.disk.real_open(os.path.join(self.disk.root, "node.url"), "w") as f:
            f.write("http://127.0.0.1:3456/\n")
        root = self.disk.root

        class Config(web.Config):
            def get_config_path(self, *names):
                return os.path.join(root, *names)

            def get_private_path(self, name):
                return os.path.join(root, "private", name)

        self.agent = Agent(ctx, answers)
        self.client = T.Tahoe(self.agent, Config())

    def collect(self, response, collector):
        try:
            for piece in response.pieces:
                collector(piece)
        except Exception:
            return fail(Failure())
        if response.broken:
            return fail(ConnectionLost())
        return succeed(None)


def outcomes(ctx, n, good, special=()):
    """Answers to up to n requests; the kinds of texts are chosen, the status
    codes are symbolic."""
    result = []
    for i in range(n):
        kind = ctx.choice("outcome%d" % i, 3 + len(TEXTS))
        if kind == 0:
            result.append("refused")
        elif kind == 1:
            result.append("lost")
        elif kind == 2:
            result.append("lost midway")
        else:
            text = TEXTS[kind - 3]
            code = ctx.int("code%d" % i, 100, 599)
            if text is None:
                text, document = good
                result.append(Answer(code, text, document))
            else:
                result.append(Answer(code, text))
    return result


def repeatable(answer, success):
    if answer == "refused":
        return True
    if isinstance(answer, str):
        return False
    if any(answer.code == c for c in success):
        return False
    return answer.text in (NO_SERVERS, NOT_ENOUGH)


def start(awaitable):
    d = Deferred.fromCoroutine(awaitable)
    out = []
    d.addBoth(out.append)
    return out


def reports(failure):
    """Everything a log or a caller would see of an error."""
    e = failure.value
    return "\n".join(
        [
            str(e),
            repr(e),
            repr(e.args),
            repr(vars(e)) if hasattr(e, "__dict__") else "",
            failure.getErrorMessage(),
            failure.getTraceback(),
        ]
    )


def leaks(text, cap):
    s = danger_real_capability_string(cap)
    return any(
        form in text
        for form in (s, s.replace(":", "%3A"), s.replace(":", "%3a"), s.split(":")[2] if len(s.split(":")[2]) > 20 else s)
    )


OPERATIONS = ["upload", "make_directory", "list_directory", "link", "unlink"]


def request(ctx, op, n, persistent=False):
    size = ctx.int("size", 0, 1 << 64)
    good = {
        "upload": (MADE, None),
        "make_directory": (NEW, None),
        "list_directory": ("", listing(ctx, size)),
        "link": ("ok", None),
        "unlink": ("ok", None),
    }[op]
    if ctx.concrete and good[1] is not None:
        good = (json.dumps(good[1]), None)
    if persistent:
        # the same trouble many times, then an answer
        k = ctx.choice("times", n)
        text = [None, NO_SERVERS, NOT_ENOUGH][ctx.choice("trouble", 3)]
        code = ctx.int("code", 400, 599)
        answers = ["refused" if text is None else Answer(code, text)] * k
        answers += [Answer(ctx.int("last", 200, 599), *good)]
        n = len(answers)
    else:
        answers = outcomes(ctx, n, good)
    g = Grid(ctx, answers)
    success = [200, 201] if op == "upload" else [200]
    case = ctx.choice("case", {"link": 6, "unlink": 6, "list_directory": 3}.get(op, 1))
    wcap = WRITE[case % 2] if op in ("link", "unlink") else None
    dcap = DIRS[case] if op == "list_directory" else None
    ecap = (DATA + DIRS)[case] if op == "link" else None
    name = NAMES[(case + case // 3) % 3] if op in ("link", "unlink") else None
    caps = [c for c in (wcap, dcap) if c is not None]
    provided = []

    def provider():
        provided.append(io.BytesIO(CONTENT))
        return provided[-1]

    if op == "upload":
        expected = ("PUT", ("uri",), {}, CONTENT)
        out = start(g.client.upload(provider))
    elif op == "make_directory":
        expected = ("POST", ("uri",), {"t": "mkdir"}, None)
        out = start(g.client.make_directory())
    elif op == "list_directory":
        expected = (
            "GET",
            ("uri", danger_real_capability_string(dcap), ""),
            {"t": "json"},
            None,
        )
        out = start(g.client.list_directory(dcap))
    elif op == "link":
        expected = (
            "PUT",
            ("uri", danger_real_capability_string(wcap), name),
            {"t": "uri"},
            danger_real_capability_string(ecap).encode("ascii"),
        )
        out = start(g.client.link(wcap, name, ecap))
    else:
        expected = (
            "DELETE",
            ("uri", danger_real_capability_string(wcap), name),
            {},
            None,
        )
        out = start(g.client.unlink(wcap, name))

    # how many requests have to be made
    wanted = 0
    for a in answers:
        wanted += 1
        if not repeatable(a, success):
            break
    else:
        wanted += 1
        ctx.cover("repeated to the end")
    made = len(g.agent.requests)
    if wanted > 1:
        ctx.cover("repeated")
    ctx.check(made <= wanted, "only requests which met a lack of servers or node are repeated")
    ctx.check(made >= wanted, "requests which met a lack of servers or node are repeated")
    for i, (method, url, data) in enumerate(g.agent.requests):
        u = as_url(url)
        ctx.check(
            (method, tuple(u.path), {k: v for k, v in u.query}) == expected[:3]
            and (u.host, u.port) == ("127.0.0.1", 3456),
            "each request is the one the operation stands for",
            detail=repr((method, u)),
        )
        if i < len(answers) and not isinstance(answers[i], str):
            ctx.check(data == expected[3], "each request carries the complete data")
    if made != wanted or wanted > n:
        ctx.check(out == [] or made != wanted, "an unanswered request has no outcome")
        return
    last = answers[wanted - 1]
    ctx.check(len(out) == 1, "the outcome is reported")
    if not out:
        return
    r = out[0]
    if last == "lost" or last == "lost midway":
        ctx.cover("lost")
        ctx.check(
            isinstance(r, Failure) and r.check(ConnectionLost) is not None,
            "a lost connection is reported",
        )
    elif any(last.code == c for c in success):
        if (last.text, last.document) != good:
            # a success which makes no sense
            if op not in ("link", "unlink"):
                ctx.check(isinstance(r, Failure), "an unintelligible success is refused")
            return
        ctx.cover("succeeded")
        if op == "upload":
            ctx.check(
                r == readable_from_string(MADE), "an upload gives the capability stated"
            )
        elif op == "make_directory":
            ctx.check(
                r == writeable_directory_from_string(NEW),
                "the write capability of the new directory is returned",
            )
        elif op == "list_directory":
            ok = set(r) == {"snapshot", "more"}
            ctx.check(ok, "the listing names every entry")
            if ok:
                f, d = r["snapshot"], r["more"]
                ctx.check(
                    type(f) is T.FileNode and type(d) is T.DirectoryNode,
                    "files and directories are told apart",
                )
                ctx.check(f.size == size, "sizes are as stated")
                ctx.check(
                    f.ro_uri == readable_from_string(MADE) and d.ro_uri == MORE,
                    "entries have their own read-only capability",
                )
        else:
            ctx.check(r is None, "a change has no result")
    else:
        ctx.cover("failed")
        ctx.check(isinstance(r, Failure), "a failure is reported", detail=repr(r))
        if not isinstance(r, Failure):
            return
        e = r.value
        if op in ("link", "unlink") and isinstance(e, T.NotWriteableError):
            ctx.check(
                And(last.code == 500, last.text == NOT_WRITEABLE),
                "a directory is said to be read-only only if it is",
            )
        elif op == "unlink" and isinstance(e, T.NotADirectoryError):
            ctx.check(
                And(last.code == 400, last.text == NOT_A_DIRECTORY),
                "it is said to be no directory only if it is none",
            )
        else:
            ctx.check(
                isinstance(e, T.TahoeAPIError), "a failure is reported as one", detail=repr(e)
            )
            if isinstance(e, T.TahoeAPIError):
                ctx.check(e.status == last.code, "an error has the status of the answer")
                ctx.check(
                    e.body == (last.document and "[listing]" or last.text),
                    "an error has the text of the answer",
                )
                if op in ("link", "unlink"):
                    ctx.check(
                        Not(And(last.code == 500, last.text == NOT_WRITEABLE)),
                        "writing to a read-only directory is reported as that",
                    )
    if isinstance(r, Failure):
        text = reports(r)
        for c in caps:
            ctx.check(
                not leaks(text, c),
                "the error does not reveal the capability of the directory",
                detail=text[:300],
            )


# -- downloads -------------------------------------------------------------------


def download(ctx, crashing, faulty):
    patcher = Patcher(ctx)
    crash = ctx.int("crash", 0, 8) if crashing else 0
    fault = ctx.int("fault", 0, 8) if faulty else 0
    disk = Disk(ctx, patcher, crash, fault)
    kind = ctx.choice("outcome", 3)
    if kind == 0:
        answers = ["refused"]
    elif kind == 1:
        answers = ["lost"]
    else:
        a = Answer(ctx.int("code", 100, 599), CONTENT.decode("ascii"))
        n = ctx.choice("pieces", 4)
        a.broken = n < 3
        a.pieces = [CONTENT[:5], CONTENT[5:6], CONTENT[6:]][:n]
        answers = [a]
    g = Grid(ctx, answers, disk)
    target = os.path.join("private", "wanted")
    old = b"old" if ctx.flag("old") else None
    if old is not None:
        with disk.real_open(os.path.join(disk.root, target), "wb") as f:
            f.write(old)
    cap = DATA[ctx.choice("cap", len(DATA))]
    disk.armed = True
    out = start(g.client.download(FilePath(os.path.join(disk.root, target)), cap))
    disk.armed = False
    got = disk.read(target)
    (method, url, _) = g.agent.requests[0]
    u = as_url(url)
    ctx.check(
        (method, tuple(u.path)) == ("GET", ("uri", danger_real_capability_string(cap))),
        "a download asks for the object it was asked for",
    )
    if disk.dead:
        ctx.cover("killed")
        ctx.check(got == CONTENT or got == old, "a killed download leaves everything or nothing", detail=repr(got))
        return
    ctx.check(len(out) == 1, "a download has an outcome")
    if not out:
        return
    r = out[0]
    a = answers[0]
    complete = kind == 2 and not a.broken and a.code == 200
    if isinstance(r, Failure):
        ctx.cover("failed")
        ctx.check(
            Or(Not(complete), disk.faulted is not None),
            "a download which was answered completely succeeds",
            detail=repr(r),
        )
        ctx.check(
            got == old or (disk.faulted is not None and got == CONTENT),
            "a failed download leaves the target alone",
            detail=repr(got),
        )
        ctx.check(not leaks(reports(r), cap), "the error does not reveal the capability of the object", detail=reports(r)[:300])
    else:
        ctx.cover("downloaded")
        ctx.check(complete, "a download succeeds only if the object arrived completely")
        ctx.check(got == CONTENT, "a download leaves the complete content", detail=repr(got))
        ctx.check(r is None, "a download has no result")


class Tree:
    """Directories by capability."""

    def __init__(self, dirs):
        self.dirs = dirs
        self.downloaded = []
        self.listed = []

    async def list_directory(self, cap):
        self.listed.append(cap)
        for c, children in self.dirs:
            if c == cap:
                return children
        raise ValueError("not a directory")

    async def download(self, outpath, cap):
        self.downloaded.append((outpath, cap))


def path(ctx):
    """Following a path of names to a file."""
    length = ctx.choice("length", 4)
    names = ["a", "b", "c"]
    kinds = [ctx.choice("kind%d" % i, 3) for i in range(3)]  # file, directory, absent
    dirs = []
    for i in range(3):
        if kinds[i] == 0:
            children = {names[i]: T.FileNode(3, DATA[i])}
        elif kinds[i] == 1:
            children = {names[i]: T.DirectoryNode(DIRS[(i + 1) % 3])}
        else:
            children = {}
        children["other"] = T.FileNode(1, DATA[(i + 1) % 3])
        dirs.append((DIRS[i], children))
    t = Tree(dirs)
    asked = names[:length]
    out = start(T.download_child("out", t, DIRS[0], asked))
    ctx.check(len(out) == 1, "a path is followed to an outcome")
    reachable = (
        length > 0
        and all(k == 1 for k in kinds[: length - 1])
        and kinds[length - 1] == 0
    )
    if reachable:
        ctx.cover("found")
        ctx.check(
            out == [None] and t.downloaded == [("out", DATA[length - 1])],
            "the file at the end of the path is downloaded",
        )
    else:
        ctx.cover("not found")
        ctx.check(
            isinstance(out[0], Failure) and t.downloaded == [],
            "nothing else is downloaded in place of a file which is not there",
        )
        for c in DIRS + DATA:
            ctx.check(
                not leaks(str(out[0].value) + repr(out[0].value.args), c),
                "the error does not reveal a capability",
            )


def not_a_directory(ctx):
    """Only directories are listed."""
    cap = DATA[ctx.choice("cap", len(DATA))]
    g = Grid(ctx, ["lost"])
    out = start(g.client.list_directory(cap))
    ctx.check(
        len(out) == 1 and isinstance(out[0], Failure) and g.agent.requests == [],
        "a capability for something else is never listed",
    )
    ctx.check(not leaks(reports(out[0]), cap), "the error does not reveal the capability")
    ctx.cover("refused")


HARNESSES = [
    H(
        request,
        name=op,
        params={"op": op, "n": 12, "persistent": True},
        bounds="up to 11 failures of the same repeatable kind (any error status), then an answer of any status",
        covers=["repeated", "succeeded", "failed"],
    )
    for op in OPERATIONS
] + [
    H(
        request,
        name=op,
        params={"op": op, "n": 2},
        bounds="outcomes of up to 2 requests: refused, lost (before or during the data), answered with any status 100 to 599 and one of 7 texts; capabilities of every kind; a listing with any size",
        covers=["repeated", "repeated to the end", "succeeded", "failed", "lost"],
        tiers=("quick", "thorough"),
    )
    for op in OPERATIONS
] + [
    H(
        request,
        name=op,
        params={"op": op, "n": 3},
        bounds="as above with up to 3 requests",
        covers=["repeated", "repeated to the end", "succeeded", "failed", "lost"],
        tiers=("thorough",),
        budget_s=3000,
    )
    for op in OPERATIONS
] + [
    H(
        download,
        params={"crashing": False, "faulty": True},
        bounds="any status; the content (16 bytes in 3 pieces) breaking off after any piece; any one change to the directory failing; the target absent or present",
        covers=["failed", "downloaded"],
    ),
    H(
        download,
        params={"crashing": True, "faulty": False},
        bounds="the same, killed at any change to the directory",
        covers=["failed", "downloaded", "killed"],
    ),
    H(path, bounds="paths of up to 3 names through up to 3 directories", covers=["found", "not found"]),
    H(not_a_directory, bounds="3 kinds of capabilities of files", covers=["refused"]),
]
