"""Modules of the code under test whose string building (f-strings, %,
``format``, ``join``, ``replace``, ``translate``) also accepts symbolic text.

The module's current source is compiled again with the string operations
replaced by the functions below, which do what Python does when nothing is
symbolic."""
from __future__ import annotations

import ast
import importlib
import inspect
import re
import string
import sys
import types

from .core import Unsupported, current
from .symtext import SymStr, _at

METHODS = {"join", "format", "replace", "translate", "format_map"}


def symbolic(x):
    return type(x) is SymStr


def concat(parts):
    if not any(symbolic(p) for p in parts):
        return "".join(parts)
    return SymStr([i for p in parts for i in SymStr.of(p).items])


def text(x, conversion=-1, spec=""):
    if symbolic(x):
        if conversion not in (-1, 115) or spec not in ("", "s"):
            current().abort(Unsupported("formatting of symbolic text"))
        return x
    if conversion == 114:
        x = repr(x)
    elif conversion == 115:
        x = str(x)
    elif conversion == 97:
        x = ascii(x)
    return format(x, spec)


def replace(s, old, new, count=-1):
    s, old, new = SymStr.of(s).items, SymStr.of(old).items, SymStr.of(new).items
    if not old:
        current().abort(Unsupported("replacement of the empty string"))
    out, n = [], 0
    while n < len(s):
        if count != 0 and n + len(old) <= len(s) and _at(s, n, old):
            out += new
            n += len(old)
            count -= 1
        else:
            out.append(s[n])
            n += 1
    return SymStr(out).simplify()


def translate(s, table):
    out = []
    for i in s.items:
        for k, v in table.items():
            if i == k:
                out += [] if v is None else [v] if isinstance(v, int) else SymStr.of(v).items
                break
        else:
            out.append(i)
    return SymStr(out).simplify()


def formatted(fmt, args, kwargs):
    parts, auto = [], 0
    for literal, field, spec, conversion in string.Formatter().parse(fmt):
        parts.append(literal)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        m = re.fullmatch(r"(\w+)((?:\.\w+)*)", field)
        if not m:
            current().abort(Unsupported("format " + fmt))
        value = args[int(m[1])] if m[1].isdigit() else kwargs[m[1]]
        for a in m[2].split(".")[1:]:
            value = getattr(value, a)
        parts.append(text(value, ord(conversion) if conversion else -1, spec))
    return concat(parts)


def call(obj, name, *args, **kwargs):
    if isinstance(obj, str):
        if name == "join":
            items = list(args[0])
            if symbolic(obj) or any(symbolic(i) for i in items):
                out = []
                for n, i in enumerate(items):
                    out += [obj, i] if n else [i]
                return concat(out)
            return obj.join(items)
        if name == "replace" and (symbolic(obj) or any(symbolic(a) for a in args)):
            return replace(obj, *args, **kwargs)
        if name == "translate" and symbolic(obj):
            return translate(obj, *args)
        if name in ("format", "format_map"):
            if name == "format_map":
                kwargs, args = args[0], ()
            if any(symbolic(a) for a in (*args, *kwargs.values())):
                return formatted(obj, args, kwargs)
            return obj.format(*args, **kwargs)
    return getattr(obj, name)(*args, **kwargs)


def modulo(a, b):
    if isinstance(a, str) and not symbolic(a):
        values = b if type(b) is tuple else (b,)
        if type(b) is not dict and any(symbolic(v) for v in values):
            pieces = re.split(r"(%.)", a)
            out, n = [], 0
            for p in pieces:
                if p == "%%":
                    out.append("%")
                elif p.startswith("%") and len(p) == 2:
                    if p[1] not in "sd" or (p[1] == "d" and symbolic(values[n])):
                        current().abort(Unsupported("format " + a))
                    out.append(text(values[n]) if symbolic(values[n]) else p % (values[n],))
                    n += 1
                else:
                    out.append(p)
            return concat(out)
    return a % b


class Rewrite(ast.NodeTransformer):
    def helper(self, name, args, keywords=()):
        return ast.Call(
            ast.Name("__symfmt_%s__" % name, ast.Load()), list(args), list(keywords)
        )

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                args = [self.visit(v.value), ast.Constant(v.conversion)]
                if spec is not None:
                    args.append(self.visit(spec))
                parts.append(self.helper("text", args))
            else:
                parts.append(v)
        return ast.copy_location(self.helper("concat", [ast.List(parts, ast.Load())]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.copy_location(
                self.helper("call", [f.value, ast.Constant(f.attr), *node.args], node.keywords),
                node,
            )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.helper("modulo", [node.left, node.right]), node)
        return node


HELPERS = {"text": text, "concat": concat, "call": call, "modulo": modulo}


def load(names):
    """The named modules, compiled for symbolic text and referring to each
    other; {name: namespace}"""
    out = {}
    for name in names:
        module = importlib.import_module(name)
        source = inspect.getsource(module)
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(source)))
        code = compile(tree, module.__file__, "exec", dont_inherit=True)
        clone = types.ModuleType(name)
        ns = vars(clone)
        ns.update(
            __file__=module.__file__, __package__=module.__package__, __spec__=module.__spec__
        )
        ns.update(("__symfmt_%s__" % k, v) for k, v in HELPERS.items())
        # attrs looks its class' module up here.
        sys.modules[name] = clone
        try:
            exec(code, ns)
        finally:
            sys.modules[name] = module
        for other, clones in out.items():
            originals = vars(importlib.import_module(other))
            for k, v in list(ns.items()):
                for o, w in originals.items():
                    if w is v and o in clones and (callable(v)):
                        ns[k] = clones[o]
        out[name] = ns
    return out
