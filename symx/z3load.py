"""Import the z3 bindings (pure ctypes) from the tools venv into PyPy.

PyPy's ctypes is slow and its cffi is fast, so the plain entry points (those
taking and returning handles and machine integers) are called through cffi.
"""
import ctypes
import glob
import importlib.util
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for base in (
        sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"))
    ):
        spec = importlib.util.spec_from_file_location(
            "z3", base + "/__init__.py", submodule_search_locations=[base]
        )
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        spec.loader.exec_module(mod)
        try:
            accelerate(mod)
        except ImportError:
            pass
        return mod
    raise RuntimeError("no z3 python bindings found")


def accelerate(mod):
    from cffi import FFI

    z3core = mod.z3core
    elem = z3core.Elementaries
    chosen = []
    handles = set()
    for name, fn in vars(z3core).items():
        if not name.startswith("Z3_") or not callable(fn):
            continue
        defaults = getattr(fn, "__defaults__", None)
        if not defaults or not isinstance(defaults[-1], elem):
            continue
        low = defaults[-1].f
        if low.argtypes is None:
            continue
        for t in list(low.argtypes) + [low.restype]:
            if isinstance(t, type) and issubclass(t, ctypes.c_void_p):
                handles.add(t)
        args = [_kind(t) for t in low.argtypes]
        ret = "v" if low.restype in (None, ctypes.c_int) and name.endswith("_ref") else _kind(low.restype)
        if None in args or ret not in ("p", "u", "b", "i", "v"):
            continue
        chosen.append((name, defaults[-1], args, ret, low.restype))
    ffi = FFI()
    c = {"p": "uintptr_t", "a": "uintptr_t", "u": "unsigned int", "i": "int", "b": "_Bool", "v": "void"}
    names = [n for n, *_ in chosen] + ["Z3_get_error_code"]
    ffi.cdef(
        "\n".join(
            "%s %s(%s);" % (c[ret], n, ", ".join(c[a] for a in args) or "void")
            for n, _, args, ret, _ in chosen
            if n != "Z3_get_error_code"
        )
        + "\nint Z3_get_error_code(uintptr_t);"
    )
    lib = ffi.dlopen(_library(mod))
    code = lib.Z3_get_error_code
    for k in handles:
        k.__getattr__ = _lazy
        k.from_buffer_copy = classmethod(lambda cls, o: _new(cls, o._h))
    for n, e, args, ret, restype in chosen:
        e.f = _wrapper(getattr(lib, n), args, ret, restype)

    def Check(self, ctx):
        if code(ctx._h):
            err = self.get_error_code(ctx)
            raise self.Exception(self.get_error_message(ctx, err))

    elem.Check = Check


def _lazy(self, name):
    """``_h``: the handle as an integer; ``_buffer``: what ctypes wants."""
    if name == "_h":
        h = self.value or 0
        self._h = h
        return h
    if name == "_buffer" and "_h" in self.__dict__:
        b = self._ffiarray(1, autofree=True)
        b[0] = self._h
        self._buffer = b
        return b
    raise AttributeError(name)


def _new(cls, h):
    o = cls.__new__(cls)
    o._h = h
    return o


def _library(mod):
    """The very file ctypes loaded."""
    with open("/proc/self/maps") as f:
        for line in f:
            path = line.split()[-1]
            if "libz3" in path:
                return path
    raise ImportError("libz3 is not mapped")


def _kind(t):
    if t is None:
        return "v"
    if t is ctypes.c_bool:
        return "b"
    if t is ctypes.c_uint:
        return "u"
    if t is ctypes.c_int:
        return "i"
    if isinstance(t, type) and issubclass(t, ctypes.c_void_p):
        return "p"
    if isinstance(t, type) and issubclass(t, ctypes._Pointer):
        return "a" if issubclass(t._type_, ctypes.c_void_p) else None
    return None


def _wrapper(cf, args, ret, restype):
    conv = {
        "p": "x%d._h",
        "a": "ctypes.addressof(x%d)",
        "u": "x%d",
        "i": "x%d",
        "b": "x%d",
    }
    ps = ", ".join("x%d" % i for i in range(len(args)))
    call = "cf(%s)" % ", ".join(conv[a] % i for i, a in enumerate(args))
    if ret == "p":
        call = "new(restype, %s)" % call
    elif ret == "b":
        call = "bool(%s)" % call
    ns = {"cf": cf, "restype": restype, "ctypes": ctypes, "new": _new}
    exec("def f(%s):\n    return %s" % (ps, call), ns)
    return ns["f"]


z3 = load()
