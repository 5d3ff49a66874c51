"""Environment stubs: substitution of objects the code under test refers to.

A substitution is by *identity*: every module-level name in any
``_zkapauthorizer`` module that refers to the original object is rebound for
the duration of a symbolic run, so the stubs keep working when code moves
between modules or is renamed.
"""
from __future__ import annotations

import sys

from .values import FloatShim, IntShim, sym_len

PKG = "_zkapauthorizer"


_modules = (0, [])
_sites = {}


def repo_modules():
    """Loaded, non-test modules of the code under test."""
    global _modules
    if _modules[0] != len(sys.modules):
        found = [
            m
            for n, m in sorted(sys.modules.items())
            if m is not None
            and (n == PKG or n.startswith(PKG + "."))
            and ".tests" not in n
        ]
        _modules = (len(sys.modules), found)
        _sites.clear()
    return _modules[1]


def sites_of(original):
    """The module globals that refer to ``original`` (computed once; the
    entries are re-checked by identity at each use)."""
    modules = repo_modules()
    hit = _sites.get(id(original))
    if hit is None or hit[0] is not original:
        hit = (
            original,
            [(m, k) for m in modules for k, v in vars(m).items() if v is original],
        )
        _sites[id(original)] = hit
    return hit[1]


_MISSING = object()


class Patcher:
    def __init__(self, ctx):
        self.undo = []
        ctx.cleanup(self.restore)

    def set(self, obj, name, value):
        d = vars(obj)
        old = d.get(name, _MISSING)
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def restore(self):
        while self.undo:
            obj, name, old = self.undo.pop()
            if old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def replace(self, original, replacement, home=None, attr=None):
        """Rebind every repo-module global that *is* ``original``; also the
        attribute it came from, if given (for ``os.stat``-style access)."""
        n = 0
        for m, k in sites_of(original):
            if vars(m).get(k, _MISSING) is original:
                self.set(m, k, replacement)
                n += 1
        if home is not None:
            self.set(home, attr, replacement)
        return n

    def inject(self, name, value):
        """Shadow a builtin in every repo module."""
        for m in repo_modules():
            if name not in vars(m):
                self.set(m, name, value)

    def builtins(self):
        self.inject("len", sym_len)
        self.inject("int", IntShim)
        self.inject("float", FloatShim)
        return self

    def proxy_module(self, module, **overrides):
        """Replace references to a whole module by a view with overrides."""
        view = ModuleView(module, overrides)
        self.replace(module, view)
        return view


class ModuleView:
    def __init__(self, module, overrides):
        self.__dict__.update(overrides)
        self.__dict__["_module"] = module

    def __getattr__(self, name):
        return getattr(self._module, name)


def quiet_eliot():
    """Logging is not the subject: drop messages before serialisation."""
    import eliot
    from eliot import _output

    def write(self, dictionary, serializer=None):
        pass

    from eliot import _action, _traceback

    for m in (_action, _traceback):
        if hasattr(m, "safeunicode"):
            m.safeunicode = lambda o: "<text>"
    _output.Logger.write = write
    _output.Destinations.send = lambda self, message, logger=None: None
    from twisted.logger import globalLogBeginner

    try:
        globalLogBeginner.beginLoggingTo([], discardBuffer=True, redirectStandardIO=False)
    except Exception:
        pass
