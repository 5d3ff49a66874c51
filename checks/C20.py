"""Replication is set up once, and a stored replica is never replaced."""
import os
import sqlite3

from symx.runner import H
from symx.values import *

from tahoe_capabilities import (
    danger_real_capability_string,
    writeable_directory_from_string,
)
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.python.filepath import FilePath

from _zkapauthorizer import _plugin
from _zkapauthorizer import replicate as R
from _zkapauthorizer.tahoe import ShareEncoding, TahoeConfig

from checks import web_common as web
from checks.disk_common import Disk, Killed
from checks.wallet_common import voucher_name
from symx.env import Patcher, quiet_eliot

quiet_eliot()

PROPERTY = "C20"
TITLE = "replication is set up once and a stored replica is never replaced"
ASSUMPTIONS = [
    "one process at a time uses the node directory; a process that was killed does not come back with the same process id",
    "the file system keeps a rename atomic and loses nothing already written when a process is killed (power failures are outside)",
    "a process killed between the creation of the directory on the grid and storing its capability leaves an unused directory behind; the next set-up makes another",
    "while a set-up is under way another one may be refused with an error (500)",
    "the websocket and the storage part of the plugin are not exercised",
]

CAPS = [
    "URI:DIR2:%s:%s" % ("a" * 26, "b" * 52),
    "URI:DIR2-MDMF:%s:%s" % ("c" * 26, "d" * 52),
    "URI:DIR2:%s:%s" % ("e" * 26, "f" * 51 + "a"),
    "URI:DIR2-MDMF:%s:%s" % ("g" * 26, "h" * 52),
    "URI:DIR2:%s:%s" % ("i" * 26, "j" * 52),
    "URI:DIR2:%s:%s" % ("k" * 26, "l" * 52),
    "URI:DIR2:%s:%s" % ("m" * 26, "n" * 52),
    "URI:DIR2:%s:%s" % ("o" * 26, "p" * 52),
]


class Unreachable(Exception):
    """The grid failed the request."""


class Reactor(Clock):
    def __init__(self):
        Clock.__init__(self)
        self.starting = []

    def callWhenRunning(self, f, *a, **kw):
        self.starting.append(lambda: f(*a, **kw))

    def addSystemEventTrigger(self, *a, **kw):
        pass

    def callFromThread(self, f, *a, **kw):
        f(*a, **kw)


class Grid:
    """What the grid was asked and what it made."""

    def __init__(self):
        self.made = []
        self.asked = 0


class Client:
    def __init__(self, world):
        self.world = world
        self.waiting = []
        self.asked = False

    def get_config(self):
        return TahoeConfig(ShareEncoding(3, 10))

    def get_private_path(self, name):
        return FilePath(os.path.join(self.world.disk.root, "private", name))

    async def make_directory(self):
        w = self.world
        w.ctx.check(
            w.stored() is None,
            "no second replica directory is made once one is stored",
        )
        d = Deferred()
        self.waiting.append(d)
        w.grid.asked += 1
        w.ctx.check(len(self.waiting) == 1, "one set-up at a time makes a directory")
        return await d

    async def forever(self, *a, **kw):
        await Deferred()

    upload = link = unlink = list_directory = download = forever


class NodeConfig(web.Config):
    def __init__(self, root):
        web.Config.__init__(self)
        self.root = root

    def get_config_path(self, *a):
        return os.path.join(self.root, *a)

    def get_private_path(self, name):
        return os.path.join(self.root, "private", name)


class Post:
    def __init__(self, world):
        self.process = world.process
        self.before = world.stored()
        self.others = len(world.client.waiting)
        self.failed = False
        self.judged = False
        self.request = web.Request(b"POST", [b"replicate"], b"", [web.AUTH])
        try:
            web.serve(world.root, self.request)
        except Killed:
            pass


class World:
    def __init__(self, ctx, crash, fault):
        self.ctx = ctx
        self.patcher = Patcher(ctx)
        web.install_web(ctx, self.patcher)
        self.disk = Disk(ctx, self.patcher, crash, fault)
        self.grid = Grid()
        self.conns = []
        self.posts = []
        self.process = 0
        self.replica = None
        self.vouchers = 0
        ctx.cleanup(self.close)
        self.start()

    def close(self):
        for c in self.conns:
            try:
                c.close()
            except sqlite3.Error:
                pass
        self.conns = []

    def stored(self):
        """What is stored as the capability of the replica."""
        return self.disk.read("private", R.REPLICA_RWCAP_BASENAME)

    def connect(self, path, **kw):
        c = sqlite3.connect(path, **kw)
        c.execute("PRAGMA synchronous = OFF")
        self.conns.append(c)
        return c

    def start(self):
        """A process using the node directory starts."""
        self.close()
        self.process += 1
        self.disk.pid += 1
        self.disk.dead = False
        self.disk.armed = False
        self.client = Client(self)
        self.config = NodeConfig(self.disk.root)
        self.reactor = Reactor()
        self.plugin = _plugin.ZKAPAuthorizer(
            "privatestorageio-zkapauthz-v2",
            self.reactor,
            lambda reactor, config: self.client,
            self.connect,
        )
        self.root = self.plugin.get_client_resource(self.config)
        self.store = self.plugin._get_store(self.config)
        for f in self.reactor.starting:
            f()
        self.disk.armed = True

    # -- events

    def post(self):
        p = Post(self)
        self.posts.append(p)
        return p

    def answer(self, ok):
        d = self.client.waiting.pop(0)
        asking = [p for p in self.posts if p.process == self.process and not web.over(p.request)]
        if ok:
            cap = writeable_directory_from_string(CAPS[len(self.grid.made)])
            self.grid.made.append(cap)
        try:
            if ok:
                d.callback(cap)
            else:
                for p in asking:
                    p.failed = True
                d.errback(Unreachable("no storage servers"))
        except Killed:
            pass

    # -- what must hold

    def look(self):
        """Judge the stored capability and every answer given so far."""
        ctx = self.ctx
        stored = self.stored()
        names = [danger_real_capability_string(c).encode("ascii") for c in self.grid.made]
        ctx.check(
            stored is None or stored in names,
            "what is stored is the write capability of a directory the grid made",
            detail=repr(stored),
        )
        if self.replica is not None:
            ctx.check(
                stored == self.replica,
                "a stored replica capability is never replaced or removed",
                detail=repr((self.replica, stored)),
            )
        self.replica = stored
        if stored is not None:
            ctx.cover("stored")
        if self.disk.dead:
            return
        for p in self.posts:
            if p.process == self.process and not p.judged and web.over(p.request):
                p.judged = True
                self.judge(p, stored)

    def judge(self, p, stored):
        ctx = self.ctx
        r = p.request
        for part in r.written:
            text = part.document if isinstance(part, web.Body) else part
            for cap in self.grid.made:
                ctx.check(
                    danger_real_capability_string(cap) not in repr(text),
                    "no answer gives write access to the replica",
                )
        if r.status == 500:
            ctx.cover("refused")
            ctx.check(
                p.failed or p.others > 0 or self.disk.faulted is not None,
                "setting up fails only because the grid or the disk failed or another set-up is under way",
                detail=repr(r.failure),
            )
            return
        ctx.check(r.status in (201, 409), "set-up is answered 201 or 409", detail=r.status)
        ctx.check(
            r.status == (201 if p.before is None else 409),
            "409 is answered exactly if a replica existed before",
            detail=r.status,
        )
        if r.status == 201:
            ctx.cover("created")
        if r.status == 409:
            ctx.cover("already set up")
        ctx.check(
            stored is not None, "set-up succeeds only if the capability has been stored"
        )
        if stored is None:
            return
        reader = writeable_directory_from_string(stored.decode("ascii")).reader
        ctx.check(
            r.answer() == {"recovery-capability": danger_real_capability_string(reader)},
            "callers get the read-only capability of the stored replica",
            detail=repr(r.answer()),
        )

    def recorded(self):
        """Whether a change made now is kept for replication."""
        self.disk.armed = False

        def events():
            cur = self.conns[-1].cursor()
            cur.execute("SELECT COUNT(*) FROM [event-stream]")
            return cur.fetchall()[0][0]

        before = events()
        self.vouchers += 1
        self.store.add(
            voucher_name(self.vouchers), 1, 0, lambda: []
        )
        return events() > before


def setups(ctx, steps, posts, crashing, faulty):
    crash = ctx.int("crash", 0, 14) if crashing else 0
    fault = ctx.int("fault", 0, 14) if faulty else 0
    w = World(ctx, crash, fault)
    made = 0
    for i in range(steps):
        if w.disk.dead:
            ctx.cover("killed")
            w.look()
            w.start()
        events = []
        if made < posts:
            events.append("post")
        if w.client.waiting:
            events += ["ok", "fail"]
        if crashing:
            events.append("restart")
        if not events:
            break
        e = events[ctx.choice("event%d" % i, len(events))]
        if e == "post":
            made += 1
            w.post()
        elif e == "ok":
            w.answer(True)
        elif e == "fail":
            w.answer(False)
        else:
            w.start()
        w.look()
    if w.disk.dead:
        ctx.cover("killed")
        w.look()
        w.start()
        w.look()
    # whatever happened: now the grid works
    while w.client.waiting:
        w.answer(True)
        w.look()
        if w.disk.dead:
            w.start()
            w.look()
    stuck = w.disk.faulted is not None and w.disk.faulted[0] in ("unlink", "remove", "rmdir")
    if stuck:
        # the lock could not be released
        w.start()
    if w.disk.faulted is not None:
        ctx.cover("fault")
    if not w.disk.faulted:
        # what is set up is recorded at once
        ctx.check(
            w.recorded() == (w.stored() is not None),
            "changes are recorded for replication exactly if it has been set up",
        )
    crash_again = w.disk.crash
    w.disk.crash = w.disk.fault = 0
    w.disk.armed = True
    p = w.post()
    while w.client.waiting:
        w.answer(True)
    w.look()
    ctx.check(
        web.over(p.request) and p.request.status in (201, 409),
        "with a working grid set-up succeeds",
        detail=repr(p.request.failure),
    )
    if w.disk.faulted is None:
        ctx.check(w.recorded(), "after the set-up changes are recorded")
    w.start()
    w.look()
    ctx.check(w.recorded(), "after a restart changes are recorded")


HARNESSES = [
    H(
        setups,
        name="concurrent",
        params={"steps": 6, "posts": 3, "crashing": False, "faulty": False},
        bounds="up to 3 set-ups, the grid making a directory or failing, every order of 6 events",
        covers=["created", "already set up", "refused", "stored"],
    ),
    H(
        setups,
        name="killed",
        params={"steps": 4, "posts": 2, "crashing": True, "faulty": False},
        bounds="2 set-ups, grid answers and restarts in every order of 4 events, the process killed at any one of its first 14 changes to the node directory",
        covers=["created", "already set up", "stored", "killed"],
    ),
    H(
        setups,
        name="disk error",
        params={"steps": 4, "posts": 2, "crashing": False, "faulty": True},
        bounds="2 set-ups and grid answers in every order of 4 events, any one of the first 14 changes to the node directory failing",
        covers=["created", "already set up", "stored", "fault", "refused"],
    ),
    H(
        setups,
        name="killed",
        params={"steps": 6, "posts": 3, "crashing": True, "faulty": True},
        bounds="3 set-ups, grid answers and restarts in every order of 6 events, one kill and one failing change",
        covers=["created", "already set up", "stored", "killed", "fault"],
        tiers=("thorough",),
        budget_s=3000,
    ),
]
