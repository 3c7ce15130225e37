"""What every command helper can emit: (register, value interval, facts) per path."""
from __future__ import annotations

from .check import explore, params_of
from .core import AnalysisError, K, Term, is_k, kval, subterms


def atoms(t):
    """Non-arithmetic leaves of an integer expression."""
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "//", "%", "&", "|", "<<", ">>", "^"):
        return atoms(t.args[1]) | atoms(t.args[2])
    if t.op == "k":
        return set()
    return {t}


def subst_eval(t, env):
    if t.op == "k":
        return kval(t)
    if t in env:
        return env[t]
    a, b = subst_eval(t.args[1], env), subst_eval(t.args[2], env)
    o = t.args[0]
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
            "&": lambda: a & b, "|": lambda: a | b, "<<": lambda: a << b, ">>": lambda: a >> b, "^": lambda: a ^ b}[o]()  # fmt: skip


def values_of(I, st, t, limit=256):
    """All integers the term can denote on this path, or None when not few."""
    if is_k(t):
        return [kval(t)]
    if t.op == "enum":
        v = I.enum_value(t)
        return [kval(v)] if v is not None and is_k(v) else None
    at = list(atoms(t))
    if len(at) != 1:
        return None
    fs = I.finite(st, at[0], limit)
    if fs is None:
        return None
    return [subst_eval(t, {at[0]: kval(f)}) for f in fs]


def pairs_of(I, st, t1, t2, limit=256):
    """Joint values of two integer terms that share their unknown."""
    at = list(atoms(t1) | atoms(t2))
    if not at:
        return [(kval(t1), kval(t2))]
    if len(at) != 1:
        return None
    fs = I.finite(st, at[0], limit)
    if fs is None:
        return None
    return [(subst_eval(t1, {at[0]: kval(f)}), subst_eval(t2, {at[0]: kval(f)})) for f in fs]


def attr_of(I, st, ref, name):
    """Attribute of an object as the program would read it."""
    r = I.load_attr(ref, name, st, None)
    if len(r) != 1:
        raise AnalysisError(f"attribute {name} of {ref} does not resolve to one value")
    return r[0][1]


def requests_of(I, st, val):
    """The request objects in a returned list."""
    if val.op == "tup":
        items, exact = list(val.args), True
    elif val.op == "ref" and I.hget(st, val).kind == "list":
        o = I.hget(st, val)
        items, exact = list(o.data), o.exact
    else:
        return None
    if not exact:
        return None
    return items


def write_request_class(I):
    return I.cls("pdu.write_registers:WriteHoldingRegisterRequest")


def command_functions(I):
    """Public command functions and mixin methods, found by what they are declared to return."""
    m = I.prog.modules["givenergy_modbus.client.commands"]
    out = []
    env = I.G[m.env].data
    seen = set()
    for name, v in env.items():
        if v.op == "fn" and not name.startswith("_") and v.args[0].module is m and v.args[0] not in seen:
            if returns_requests(I, v.args[0]):
                seen.add(v.args[0])
                out.append((name, v.args[0]))
    return out


def returns_requests(I, fn):
    import ast

    r = fn.node.returns
    if r is None:
        return fn.wrapped is not None and returns_requests(I, fn.wrapped)
    if isinstance(r, ast.Constant) and isinstance(r.value, str):
        return "Request" in r.value
    return "Request" in ast.unparse(r)


def command_methods(I, cls):
    """Public command methods an instance of `cls` offers (resolved through its bases)."""
    out = {}
    for c in reversed(cls.repo_mro()):
        for name, v in c.attrs.items():
            if isinstance(v, Term) and v.op == "fn" and not name.startswith("_") and v.args[0].kind == "plain" and returns_requests(I, v.args[0]):
                out[name] = v.args[0]
            elif name in out:
                out.pop(name)
    return out


def slot_maps(I):
    m = I.prog.modules["givenergy_modbus.model.slot_map"]
    out = {}
    for name, v in I.G[m.env].data.items():
        if v.op == "ref":
            o = I.hget(I.gstate, v)
            if o.kind == "inst" and o.cls is not None and o.cls.name == "SlotMap":
                out[name] = v
    return out


def explore_command(chk, I, fn, slot_map=None):
    args = {}
    pos, kwo, _, _ = params_of(fn)
    if "slot_map" in pos + kwo and slot_map is not None:
        args["slot_map"] = slot_map
    return explore(chk, I, fn, args)
