"""A storage client wired to a scripted or real server, without a network."""
from foolscap.call import CopiedFailure, FailureSlicer
from foolscap.referenceable import RemoteReference
from foolscap.tokens import RemoteException
from twisted.internet.defer import Deferred, fail, maybeDeferred, succeed
from twisted.python.failure import Failure

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient


class Tracker:
    interfaceName = ZKAPAuthorizerStorageClient._expected_remote_interface_name if hasattr(
        ZKAPAuthorizerStorageClient, "_expected_remote_interface_name"
    ) else "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"

    def getURL(self):
        return "pb://example"


class Ref(RemoteReference):
    """A remote reference whose calls are answered by ``handler``."""

    def __init__(self, handler, name=None):
        self.handler = handler
        self.tracker = Tracker()
        if name is not None:
            self.tracker.interfaceName = name

    def callRemote(self, _name, *args, **kwargs):
        try:
            r = self.handler(_name, *args, **kwargs)
        except Exception:
            return fail(Failure())
        return r if isinstance(r, Deferred) else succeed(r)

    def __del__(self):
        pass


class _Broker:
    unsafeTracebacks = False


def over_the_wire(exc):
    """What the other end of a Tahoe connection gets for an exception: Foolscap
    sends the name of its type and up to 1000 characters of its text."""
    f = Failure(exc)
    state = FailureSlicer(f).getStateToCopy(f, _Broker())
    copied = CopiedFailure()
    copied.setCopyableState(state)
    return RemoteException(copied)


def outcome(d):
    """("value", v), ("error", exception) or ("pending", None)"""
    box = []
    d.addCallbacks(lambda v: box.append(("value", v)), lambda f: box.append(("error", f.value)))
    if not box:
        return ("pending", None)
    if box[0][0] == "error" and not isinstance(box[0][1], Exception):
        raise box[0][1]
    return box[0]
