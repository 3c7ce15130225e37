"""Shared ways of naming what a call site calls, whatever form its target takes."""
from __future__ import annotations

from .core import Term


def callee_of(f):
    """(name, receiver, FuncInfo or None) of a call target."""
    if f.op == "bm":
        fn = f.args[0].args[0]
        return fn.name, f.args[1], fn
    if f.op == "fn":
        return f.args[0].name, None, f.args[0]
    if f.op == "poly":
        return f.args[1], f.args[0], None
    if f.op in ("attr", "meth"):
        return f.args[1], f.args[0], None
    if f.op == "ext":
        return f.args[0], None, None
    if f.op == "prop":
        return f.args[0].name, None, f.args[0]
    return None, None, None


def receiver_and_args(f, args):
    """Receiver of a method call, also when called through the class."""
    name, base, fn = callee_of(f)
    if base is None and fn is not None and fn.cls is not None and args:
        return name, args[0], list(args[1:])
    return name, base, list(args)


def loops(ctx):
    """The abstract loops a program point lies in."""
    return tuple(c for c in ctx if c and c[0] == "l")


def attr_path(t):
    """self.plant.capabilities -> 'self.plant.capabilities'."""
    if t.op == "param":
        return t.args[0]
    if t.op == "attr":
        b = attr_path(t.args[0])
        return f"{b}.{t.args[1]}" if b else None
    return None
