"""An upload lives as long as its connection, unless it is finished."""
import os

from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.server import StorageServer

from symx.runner import H
from symx.values import *

from checks.client_common import Ref
from checks.server_common import *

PROPERTY = "C30"
TITLE = "an interrupted upload is discarded, a finished one never"
ASSUMPTIONS = [
    "Foolscap runs the callbacks registered for a lost connection some time after it is lost, and none that was unregistered before",
    "Tahoe's storage backend: a model of its bucket writers in the symbolic run, the real StorageServer over files in the concrete replays",
]
TIMEOUT = 30 * 60


class Connection(Ref):
    """A client's reference, with Foolscap's disconnect notifications."""

    def __init__(self):
        Ref.__init__(self, None)
        self.lost = False
        self.watchers = []
        self.due = []

    def notifyOnDisconnect(self, f, *a, **kw):
        marker = (f, a, kw)
        (self.due if self.lost else self.watchers).append(marker)
        return marker

    def dontNotifyOnDisconnect(self, marker):
        if not self.lost and marker in self.watchers:
            self.watchers.remove(marker)

    def lose(self):
        self.lost = True
        self.due, self.watchers = self.due + self.watchers, []

    def deliver(self):
        due, self.due = self.due, []
        for f, a, kw in due:
            f(*a, **kw)


class ModelWriter:
    """Tahoe's bucket writer, without the data."""

    def __init__(self, ss, num):
        self.ss, self.num = ss, num
        self.closed = False

    def write(self, offset, data):
        assert not self.closed

    def close(self):
        assert not self.closed
        self.closed = True
        self.ss.done.add(self.num)
        self.ss.ended(self)

    def disconnected(self):
        if not self.closed:
            self.abort()

    def abort(self):
        if self.closed:
            return
        self.closed = True
        self.ss.ended(self)


class ModelServer:
    my_nodeid = NODEID

    def __init__(self):
        self.sharedir = "/nonexistent/shares"
        self.open, self.done, self.handlers = {}, set(), []

    def register_bucket_writer_close_handler(self, h):
        self.handlers.append(h)

    def ended(self, bw):
        del self.open[bw.num]
        for h in self.handlers:
            h(bw)

    def allocate_buckets(self, storage_index, renew_secret, cancel_secret, sharenums, allocated_size, owner_num=0, renew_leases=True):
        new = {n: ModelWriter(self, n) for n in sorted(sharenums) if n not in self.done and n not in self.open}
        self.open.update(new)
        return set(self.done), new

    def time_out(self):
        for bw in list(self.open.values()):
            bw.abort()

    def stored(self):
        return set(self.done)

    def unfinished(self):
        return set(self.open)


class RealServer(StorageServer):
    def _under(self, top):
        d = os.path.join(top, storage_index_to_dir(SI))
        return set(int(n) for n in os.listdir(d)) if os.path.isdir(d) else set()

    def time_out(self):
        self._clock.advance(TIMEOUT + 1)

    def stored(self):
        return self._under(self.sharedir)

    def unfinished(self):
        return self._under(self.incomingdir)


def h_history(ctx, conns, shares, uploads, steps):
    if ctx.concrete:
        d = tempfile.mkdtemp(prefix="symx-server-")
        ctx.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
        clock = Clock()
        back = RealServer(d, NODEID, clock=clock)
        ctx.cleanup(back.time_out)
    else:
        Patcher(ctx).builtins()
        clock, back = Clock(), ModelServer()
    good, _ = keys()
    server = ss.ZKAPAuthorizerStorageServer(back, 1 << 20, good, RecordingSpender(), CollectorRegistry(), clock)
    cs = [Connection() for _ in range(conns)]
    passes = [make_pass(allocate_buckets_message(SI), i)[0] for i in range(shares)]
    open_, done = {}, set()  # share -> (connection, writer)

    def agree(when):
        ctx.check(back.stored() == done, "the stored shares are the finished ones, " + when, (back.stored(), done))
        ctx.check(back.unfinished() == set(open_), "the uploads in progress are those neither finished nor interrupted, " + when, (back.unfinished(), sorted(open_)))
        for j, c in enumerate(cs):
            mine = len([1 for k, _ in open_.values() if k == j])
            ctx.check(c.lost or len(c.watchers) <= mine, "a connection is watched for its uploads in progress only, " + when, (len(c.watchers), mine))

    def allocate(tag, j, wanted):
        size = ctx.int("size" + tag, 1, 1 << 20)
        got, writers = server.remote_allocate_buckets(list(passes), SI, RENEW, CANCEL, set(wanted), size if not ctx.concrete else min(size, 100), cs[j])
        new = set(n for n in wanted if n not in done and n not in open_)
        ctx.check(set(got) == done, "the finished shares are reported", got)
        ctx.check(set(writers) == new, "everything not finished or in progress can be uploaded", writers)
        for n, wr in writers.items():
            open_[n] = (j, wr)

    for u in range(uploads):
        j = ctx.choice("conn%d" % u, conns) if u else 0
        subsets = [[n for n in range(shares) if m >> n & 1] for m in range(1, 1 << shares)]
        wanted = ctx.pick("want%d" % u, subsets)
        allocate(str(u), j, wanted)
        agree("after an upload began")
    for k in range(steps):
        moves = [("close", n) for n in sorted(open_) if not cs[open_[n][0]].lost]
        moves += [("abort", n) for n in sorted(open_) if not cs[open_[n][0]].lost]
        moves += [("lose", j) for j in range(conns) if not cs[j].lost]
        moves += [("deliver", j) for j in range(conns) if cs[j].due]
        moves += [("time out", None)]
        kind, what = moves[ctx.choice("step%d" % k, len(moves))]
        ctx.cover(kind)
        if kind == "close":
            wr = open_.pop(what)[1]
            wr.remote_write(0, b"x")
            wr.remote_close()
            done.add(what)
        elif kind == "abort":
            open_.pop(what)[1].remote_abort()
        elif kind == "lose":
            cs[what].lose()
        elif kind == "deliver":
            cs[what].deliver()
            for n in [n for n, (j, _) in open_.items() if j == what]:
                del open_[n]
        else:
            back.time_out()
            open_.clear()
        agree("after " + kind)
    for j, c in enumerate(cs):
        if c.lost:
            c.deliver()
            for n in [n for n, (i, _) in open_.items() if i == j]:
                del open_[n]
    agree("after lost connections were noticed")
    cs.append(Connection())
    allocate("again", conns, range(shares))
    agree("after uploading again")
    cs[conns].lose()
    cs[conns].deliver()
    for n in [n for n, (i, _) in open_.items() if i == conns]:
        del open_[n]
    agree("after losing that connection, too")
    ctx.observe("end", [sorted(done), sorted(open_)])


HARNESSES = []
for tier, conns, shares, uploads, steps in [
    ("quick", 1, 3, 1, 3),
    ("quick", 2, 2, 2, 2),
    ("thorough", 2, 2, 2, 4),
    ("thorough", 2, 3, 2, 3),
    ("thorough", 3, 3, 3, 2),
]:
    HARNESSES.append(
        H(
            h_history,
            "history",
            {"conns": conns, "shares": shares, "uploads": uploads, "steps": steps},
            "%d connections; %d uploads of any of %d shares of 1..2^20 bytes; %d events (a share finished or aborted, a connection lost, its loss noticed, a timeout) in any order; then everything once more"
            % (conns, uploads, shares, steps),
            ["close", "abort", "lose", "deliver", "time out"],
            tiers=(tier,),
            budget_s=800 if tier == "thorough" else None,
        )
    )
