"""A storage server under test over an arbitrary backend state.

Symbolic mode: shares live in a SymFS with symbolic sizes, leases and expiry
times, and the Tahoe storage backend is a model that records what reaches it.
Concrete mode: a real allmydata StorageServer over real share files in a
temporary directory, with the calls that reach it recorded.
"""
import base64
import hashlib
import os
import shutil
import struct
import tempfile

from allmydata.storage import shares as _shares
from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.immutable import ShareFile
from allmydata.storage.lease import LeaseInfo
from allmydata.storage.mutable import MutableShareFile
from allmydata.storage.server import StorageServer
from challenge_bypass_ristretto import SigningKey, TokenPreimage
from prometheus_client import CollectorRegistry, Histogram
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer import _storage_server as ss
from _zkapauthorizer.model import Pass
from _zkapauthorizer.server.spending import ISpender
from _zkapauthorizer.storage_common import (
    add_lease_message,
    allocate_buckets_message,
    slot_testv_and_readv_and_writev_message,
)
from symx.env import Patcher
from symx.symbytes import SymFile, SymFS
from symx.values import And, Ite, Max, Or, SymInt, ceil_div, is_sym

NODEID = b"n" * 20
SI = b"\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
SI2 = b"\xff\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
RENEW = b"r" * 32
CANCEL = b"c" * 32
WRITE_ENABLER = b"w" * 32
PERIOD = 31 * 24 * 60 * 60

_key = [None]


def keys():
    if _key[0] is None:
        from challenge_bypass_ristretto import random_signing_key

        _key[0] = (random_signing_key(), random_signing_key())
    return _key[0]


_passes = {}


def make_pass(message, i, kind="valid"):
    """One encoded pass; ``kind`` says in which way it is bad, if it is."""
    k = (message, i, kind)
    if k in _passes:
        return _passes[k]
    good, other = keys()
    key = other if kind == "other key" else good
    raw = hashlib.sha512(b"preimage %d" % i).digest()
    preimage = TokenPreimage.decode_base64(base64.b64encode(raw))
    ut = key.rederive_unblinded_token(preimage)
    msg = message + b"x" if kind == "other message" else message
    sig = ut.derive_verification_key_sha512().sign_sha512(msg).encode_base64()
    if kind == "garbage":
        sig = base64.b64encode(b"\x00" * 64)
    p = Pass(preimage=preimage.encode_base64(), signature=sig)
    _passes[k] = (p.pass_bytes, p.preimage)
    return _passes[k]


def symbolic_passes(ctx, n, message, bad_kinds):
    """n passes, each valid or bad in some way.

    :return: (encoded passes, valid preimages, bad indexes)
    """
    enc, valid, bad = [], [], []
    kinds = ["valid"] + list(bad_kinds)
    for i in range(n):
        kind = ctx.pick("pass%d" % i, kinds)
        b, pre = make_pass(message, i, kind)
        enc.append(b)
        if kind == "valid":
            valid.append(pre)
        else:
            bad.append(i)
    return enc, valid, bad


@implementer(ISpender)
class RecordingSpender:
    def __init__(self):
        self.calls = []

    def mark_as_spent(self, key, passes):
        self.calls.append((key, list(passes)))

    @property
    def spent(self):
        return [p for _, ps in self.calls for p in ps]


class FakeHistogram:
    instances = []

    def __init__(self, *a, **kw):
        self.values = []
        FakeHistogram.instances.append(self)

    def observe(self, v):
        self.values.append(v)

    def _metric_init(self):
        self.values = []


class FakeLease:
    def __init__(self, expiration, renew_secret, new=False):
        self.expiration = expiration
        self.renew_secret = renew_secret
        self.new = new

    def get_expiration_time(self):
        return self.expiration


class FakeShare:
    """Model of a share container, at the level the server uses it."""

    def __init__(self, num, kind, size, leases):
        self.num = num
        self.kind = kind
        self.size = size
        self.leases = leases
        self.written = False

    def get_leases(self):
        return iter(list(self.leases))

    def add_or_renew_lease(self, available_space, lease_info):
        exp = lease_info.get_expiration_time()
        for l in self.leases:
            if l.renew_secret == lease_info.renew_secret:
                # the container keeps the later of the two times
                l.expiration = Ite(exp > l.expiration, exp, l.expiration)
                l.new = True
                return
        self.leases.append(FakeLease(exp, lease_info.renew_secret, True))


class FakeBucketWriter:
    def __init__(self, sharenum):
        self.sharenum = sharenum

    def disconnected(self):
        pass


class FakeCanary:
    def __init__(self):
        self.n = 0

    def notifyOnDisconnect(self, f, *a, **kw):
        self.n += 1
        return self.n

    def dontNotifyOnDisconnect(self, m):
        pass


class FakeBackend:
    """What a Tahoe storage server may do with each call, recorded."""

    def __init__(self, world):
        self.world = world
        self.sharedir = world.sharedir
        self.my_nodeid = NODEID

    def register_bucket_writer_close_handler(self, h):
        pass

    def get_available_space(self):
        return 1 << 60

    def allocate_buckets(
        self,
        storage_index,
        renew_secret,
        cancel_secret,
        sharenums,
        allocated_size,
        owner_num=0,
        renew_leases=True,
    ):
        w = self.world
        w.calls.append(("allocate_buckets", storage_index, frozenset(sharenums), allocated_size, renew_leases))
        got = set(w.shares)
        out = {}
        for n in sorted(sharenums):
            if n in w.shares or n in w.incoming:
                continue
            out[n] = FakeBucketWriter(n)
        w.allocated = set(out)
        return got, out

    def add_lease(self, storage_index, renew_secret, cancel_secret, owner_num=1):
        self.world.calls.append(("add_lease", storage_index, renew_secret, cancel_secret))
        return None

    def slot_testv_and_readv_and_writev(
        self, storage_index, secrets, tw_vectors, r_vector, renew_leases=True
    ):
        w = self.world
        w.calls.append(("writev", storage_index, renew_leases))
        for num, (testv, datav, new_length) in tw_vectors.items():
            if num not in w.shares:
                if not w.creates(datav, new_length):
                    continue
                w.add_share(num, "mutable", 0, [])
            w.shares[num].written = True
        return (True, {})


class SpyServer(StorageServer):
    """A real storage server that records which calls reached it."""

    world = None

    def allocate_buckets(self, storage_index, renew_secret, cancel_secret, sharenums, allocated_size, owner_num=0, renew_leases=True):
        w = self.world
        w.calls.append(("allocate_buckets", storage_index, frozenset(sharenums), allocated_size, renew_leases))
        got, out = StorageServer.allocate_buckets(
            self, storage_index, renew_secret, cancel_secret, sharenums, allocated_size, owner_num, renew_leases
        )
        w.allocated = set(out)
        return got, out

    def add_lease(self, storage_index, renew_secret, cancel_secret, owner_num=1):
        self.world.calls.append(("add_lease", storage_index, renew_secret, cancel_secret))
        return StorageServer.add_lease(self, storage_index, renew_secret, cancel_secret, owner_num)

    def slot_testv_and_readv_and_writev(self, storage_index, secrets, tw_vectors, r_vector, renew_leases=True):
        self.world.calls.append(("writev", storage_index, renew_leases))
        return StorageServer.slot_testv_and_readv_and_writev(
            self, storage_index, secrets, tw_vectors, r_vector, renew_leases
        )


_IMM_HEAD = struct.pack(">LL", 2, 0)
_MUT_SCHEMA = None


def mutable_head(size_bytes):
    """The 100 header bytes of a mutable container with this length field."""
    from allmydata.storage.mutable_schema import NEWEST_SCHEMA_VERSION

    h = NEWEST_SCHEMA_VERSION.header(NODEID, b"\0" * 32)
    return list(h[:84]) + list(size_bytes) + list(h[92:100])


class World:
    """One server over one storage index with an arbitrary set of shares."""

    def __init__(self, ctx, pass_value, now=0):
        self.ctx = ctx
        self.calls = []
        self.shares = {}
        self.incoming = set()
        self.allocated = set()
        self.spender = RecordingSpender()
        self.now = now
        self.patcher = None
        good, _ = keys()
        if ctx.concrete:
            self.dir = tempfile.mkdtemp(prefix="symx-server-")
            ctx.cleanup(lambda: shutil.rmtree(self.dir, ignore_errors=True))
            self.clock = Clock()
            self.clock.advance(now)
            self.backend = SpyServer(self.dir, NODEID, clock=self.clock)
            self.backend.world = self
            self.sharedir = self.backend.sharedir
            self.fs = None
            self.registry = CollectorRegistry()
        else:
            self.patcher = Patcher(ctx).builtins()
            self.fs = SymFS().install(self.patcher)
            self.patcher.replace(_shares.get_share_file, self.get_share_file)
            self.patcher.replace(Histogram, FakeHistogram)
            FakeHistogram.instances = []
            self.sharedir = "/nonexistent/shares"
            self.backend = FakeBackend(self)
            self.clock = Clock()
            self.clock.seconds = lambda: self.now
            self.registry = CollectorRegistry()
        self.bucket = os.path.join(
            os.fsencode(self.sharedir), os.fsencode(storage_index_to_dir(SI))
        )
        self.server = ss.ZKAPAuthorizerStorageServer(
            self.backend,
            pass_value,
            good,
            self.spender,
            self.registry,
            self.clock,
        )
        self.canary = FakeCanary()

    # -- populating -----------------------------------------------------------
    def sym_size(self, name, nbytes):
        """(size, 8 bytes): a size made of ``nbytes`` arbitrary low bytes."""
        items = [0] * (8 - nbytes) + [
            self.ctx.int("%s.b%d" % (name, i), 0, 255) for i in range(nbytes)
        ]
        n = 0
        for b in items:
            n = n * 256 + b
        return n, items

    def add_share(self, num, kind, size, leases, size_bytes=None):
        """
        :param leases: list of (expiration time, renew secret).
        """
        path = os.path.join(self.bucket, b"%d" % num)
        if not self.ctx.concrete:
            sh = FakeShare(num, kind, size, [FakeLease(e, s) for e, s in leases])
            if kind == "immutable":
                head = list(_IMM_HEAD) + list(struct.pack(">L", len(leases)))
                head += [0] * 20  # leading share data / lease bytes
                self.fs.add(path, SymFile(head, 12 + size + 72 * len(leases)))
            else:
                if size_bytes is None:
                    size_bytes = list(struct.pack(">Q", size))
                self.fs.add(path, SymFile(mutable_head(size_bytes), 468 + size + 4))
            self.shares[num] = sh
            return sh
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if kind == "immutable":
            f = ShareFile(path, max_size=size, create=True)
            with open(path, "rb+") as fh:
                fh.truncate(12 + size)
            for i, (e, s) in enumerate(leases):
                f.add_lease(LeaseInfo(1, s, b"C" * 32, e, NODEID))
        else:
            f = MutableShareFile(path, self.backend)
            f.create(NODEID, WRITE_ENABLER)
            if size:
                f.writev([(size - 1, b"z")], None)
            for e, s in leases:
                f.add_lease(1 << 60, LeaseInfo(1, s, b"C" * 32, e, NODEID))
        self.shares[num] = path
        return path

    def add_incoming(self, num):
        """A partial upload in progress: allocation will skip this share."""
        self.incoming.add(num)
        if self.ctx.concrete:
            p = os.path.join(
                os.fsencode(self.backend.incomingdir),
                os.fsencode(storage_index_to_dir(SI)),
                b"%d" % num,
            )
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"partial")

    @staticmethod
    def creates(datav, new_length):
        return new_length != 0

    def get_share_file(self, path):
        num = int(os.path.basename(os.fsencode(path)))
        self.fs.get(path)
        return self.shares[num]

    # -- observing ------------------------------------------------------------
    def leases(self, num):
        """Sorted is not possible symbolically: the expiration list."""
        if not self.ctx.concrete:
            return [l.get_expiration_time() for l in self.shares[num].leases]
        return [
            l.get_expiration_time()
            for l in _shares.get_share_file(
                os.path.join(self.bucket, b"%d" % num)
            ).get_leases()
        ]

    def share_exists(self, num):
        if not self.ctx.concrete:
            return num in self.shares
        return os.path.exists(os.path.join(self.bucket, b"%d" % num))

    def metric(self):
        """(number of observations, their sum)"""
        if not self.ctx.concrete:
            vs = [v for h in FakeHistogram.instances for v in h.values]
            total = 0
            for v in vs:
                total = total + v
            return len(vs), total
        n = "zkapauthorizer_server_spending_successes"
        return (
            int(self.registry.get_sample_value(n + "_count")),
            self.registry.get_sample_value(n + "_sum"),
        )
