"""Value of a closed expression over a few named inputs: arithmetic, byte and text operations without effects."""
from __future__ import annotations

import operator
import struct

from .core import Term, is_k, kval
from .events import callee_of

BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "&": operator.and_,
    "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "/": operator.truediv, "**": operator.pow,
}  # fmt: skip
CMP = {"eq": operator.eq, "lt": operator.lt, "le": operator.le, "is": operator.is_, "in": lambda a, b: a in b}
METHODS = {"to_bytes", "split", "rsplit", "strip", "lstrip", "rstrip", "decode", "encode", "hex", "upper", "lower", "replace", "startswith", "endswith", "partition", "rjust", "ljust", "zfill", "removeprefix", "removesuffix", "find", "index", "count", "splitlines"}
FUNCS = {"len": len, "int": int, "bytes": bytes, "str": str, "int.from_bytes": int.from_bytes, "struct.pack": struct.pack, "struct.unpack": struct.unpack, "abs": abs, "divmod": divmod, "reversed": lambda x: list(reversed(x)), "list": list, "tuple": tuple, "min": min, "max": max, "bool": bool, "any": any, "all": all}


class Unknown(Exception):
    pass


def value(t, env, depth=0):
    """Evaluate; env maps terms to values. Raises Unknown when some part is not an input."""
    if t in env:
        return env[t]
    if depth > 200:
        raise Unknown
    if is_k(t):
        return kval(t)
    d = depth + 1
    hook = env.get("hook")
    if hook is not None:
        r = hook(t, lambda x: value(x, env, d))
        if r is not NotImplemented:
            return r
    if t.op == "bin" and t.args[0] in BIN:
        return BIN[t.args[0]](value(t.args[1], env, d), value(t.args[2], env, d))
    if t.op in ("un", "unary") and len(t.args) == 2:
        v = value(t.args[1], env, d)
        return {"-": operator.neg, "~": operator.invert, "not": operator.not_, "+": operator.pos}[t.args[0]](v)
    if t.op == "not":
        return not value(t.args[0], env, d)
    if t.op == "cmp" and t.args[0] in CMP:
        return CMP[t.args[0]](value(t.args[1], env, d), value(t.args[2], env, d))
    if t.op in ("tup", "list"):
        return tuple(value(x, env, d) for x in t.args)
    if t.op == "kset":
        return {value(x, env, d) for x in t.args[0]}
    if t.op == "idx":
        try:
            return value(t.args[0], env, d)[value(t.args[1], env, d)]
        except (IndexError, KeyError, TypeError):
            raise Unknown from None
    if t.op == "slice":
        b = value(t.args[0], env, d)
        return b[slice(*(value(x, env, d) for x in t.args[1:4]))]
    if t.op == "len":
        return len(value(t.args[0], env, d))
    if t.op == "call":
        n, base, _ = callee_of(t.args[0])
        a = [value(x, env, d) for x in t.args[1]]
        kw = {k: value(v, env, d) for k, v in t.args[2]}
        try:
            if base is not None and n in METHODS:
                return getattr(value(base, env, d), n)(*a, **kw)
            if base is None and n in FUNCS:
                return FUNCS[n](*a, **kw)
        except (ValueError, TypeError, AttributeError, struct.error, OverflowError):
            raise Unknown from None
    raise Unknown


def calls_in(t, pred, out=None):
    """Every sub-term a predicate accepts."""
    out = [] if out is None else out
    if isinstance(t, Term):
        if pred(t):
            out.append(t)
        for a in t.args:
            calls_in(a, pred, out)
    elif isinstance(t, tuple):
        for a in t:
            calls_in(a, pred, out)
    return out
