"""What Plant.update does with one incoming message: every mutation of the plant, in order, on every path."""
from __future__ import annotations

from .clientmodel import ClientPolicy, Ev
from .core import Term, is_k
from .events import loops, receiver_and_args

PLANT = "givenergy_modbus.model.plant"
MUTATORS = {"update", "setdefault", "pop", "popitem", "clear", "append", "extend", "insert", "add", "discard", "remove", "__setitem__", "__delitem__", "move_to_end", "appendleft"}
GUARDS = {"_splice_guard", "is_coherent", "validate_bank", "is_internally_impossible", "is_suspicious", "_splice_burst_note_commit"}
SELF = Term("param", "self")
PDU = Term("param", "pdu")


def rooted(t, root=SELF, d=0):
    """Is this value (part of) the plant's own state?"""
    if d > 12 or not isinstance(t, Term) or is_k(t):
        return False
    if t == root:
        return True
    if t.op in ("attr", "idx", "view"):
        return rooted(t.args[0], root, d + 1)
    if t.op == "call" and t.args[0].op in ("attr", "meth") and t.args[0].args[1] in ("get", "setdefault", "values", "items", "pop"):
        return rooted(t.args[0].args[0], root, d + 1)
    return False


class PlantPolicy(ClientPolicy):
    """Everything the plant module defines is followed, except the guards' own arithmetic."""

    max_depth = 12

    def __init__(self, I, opaque=GUARDS, extra=()):
        super().__init__(I, opaque=set(opaque), extra_inline=extra)
        self.watch = MUTATORS | set(opaque)

    def inline(self, fn, interp, st):
        if fn.name in self.opaque:
            return False
        return fn.module.name == PLANT or fn.name in self.extra or fn.qual in self.extra or fn.module.name.startswith("givenergy_modbus.pdu") and fn.name not in ("to_dict", "__str__")

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        short = name.split(".")[-1] if name else name
        if short in self.opaque:
            fn = callee.args[0] if callee.op == "fn" else callee.args[0].args[0] if callee.op == "bm" else None
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items())), interp.uid(node))
            st = st.emit(Ev(short, base, rest, kwargs, node, loops(interp.ctx), fn, res))
            return self.result(interp, None, st, res, node, fn)
        if name in MUTATORS and base is not None and rooted(base):
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items())), interp.uid(node))
            st = st.emit(Ev(name, base, rest, kwargs, node, loops(interp.ctx), None, res))
            return interp.call_default(callee, args, kwargs, st, node)
        return None

    def on_store_attr(self, interp, base, name, val, st, node):
        if rooted(base):
            return st.emit(Ev("store:" + name, base, [val], {}, node, loops(interp.ctx)))
        return st

    def on_store_item(self, interp, base, key, val, st, node):
        if rooted(base):
            return st.emit(Ev("setitem", base, [key, val], {}, node, loops(interp.ctx)))
        return st

    def on_del(self, interp, base, key, st, node):
        if rooted(base):
            return st.emit(Ev("delitem", base, [key], {}, node, loops(interp.ctx)))
        return st


def committer(I):
    """The Plant method that decides whether a bank of registers replaces cached ones: it consults is_coherent and updates a cache."""
    import ast

    best = None
    for c in I.cls("model.plant:Plant").repo_mro():
        for v in c.attrs.values():
            if isinstance(v, Term) and v.op == "fn":
                names = {n.attr for n in ast.walk(v.args[0].node) if isinstance(n, ast.Attribute)}
                if "is_coherent" in names and (best is None or "update" in names):
                    best = v.args[0]
    return best


class Applied:
    """One path of Plant.update: what it knew of the message and what it changed."""

    def __init__(self, I, p):
        from .clientmodel import events

        self.p, self.st, self.I = p, p.st, I
        self.evs = events(p.st.trace)
        self.changes = [e for e in self.evs if e.name.startswith("store:") or e.name in MUTATORS or e.name in ("setitem", "delitem")]

    def knows(self, t):
        return self.I.known(self.st, t)

    def pdu_attr(self, name):
        """Truth of pdu.<name> on this path, read any way."""
        out = None
        for f, b in self.st.facts.items():
            if f.op == "attr" and f.args[0] == PDU and f.args[1] == name:
                out = b
            if f.op == "call" and f.args[0] == Term("ext", "getattr") and f.args[1][:1] == (PDU,) and len(f.args[1]) > 1 and is_k(f.args[1][1]) and f.args[1][1].args[1] == name:
                out = b
            if f.op == "hasattr" and f.args[0] == PDU and b is False and (f.args[1] == name or is_k(f.args[1]) and f.args[1].args[1] == name):
                out = False
            if f.op == "call" and f.args[0] == Term("ext", "hasattr") and f.args[1][:1] == (PDU,) and is_k(f.args[1][1]) and f.args[1][1].args[1] == name and b is False:
                out = False
            if f.op == "cmp" and f.args[0] in ("is", "eq") and f.args[1].op == "attr" and f.args[1].args[:2] == (PDU, name) and is_k(f.args[2]) and isinstance(f.args[2].args[1], bool):
                out = f.args[2].args[1] is b
        return out

    def isa(self, cls):
        """True/False when the path knows whether the message is an instance of this class."""
        ci = self.I.cls(cls)
        for f, b in self.st.facts.items():
            if f.op == "isinstance" and f.args[0] == PDU:
                cs = f.args[1].args if f.args[1].op in ("or", "tup") else (f.args[1],)
                if b and all(self.I.sub(c, Term("cls", ci)) for c in cs):
                    return True
                if not b and any(self.I.sub(Term("cls", ci), c) for c in cs):
                    return False
        return None


def update_paths(chk, I, opaque=None):
    fn = I.func("model.plant:Plant.update")
    com = committer(I)
    chk.require(fn is not None and com is not None, "Plant.update and the method that commits a bank")
    I.policy = PlantPolicy(I, opaque=set(GUARDS) | ({com.name} if com is not fn else set()))
    I.policy.one_element = True
    I.types.pop(PDU, None)
    return fn, com, [Applied(I, p) for p in chk.explore(I, fn, {"pdu": PDU})]


def where_of(chk, I, fn, e):
    return f"{fn.module.path}:{e.line()} ({fn.qual})"


def root_attr(t):
    """The Plant attribute a mutated value hangs off: self.register_caches[x] -> 'register_caches'."""
    while isinstance(t, Term):
        if t.op == "attr" and t.args[0] == SELF:
            return t.args[1]
        if t.op in ("attr", "idx", "view"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op in ("attr", "meth"):
            t = t.args[0].args[0]
        else:
            return None
    return None


def changed(e):
    """Name of the Plant attribute an event changes."""
    return e.name[6:] if e.name.startswith("store:") else root_attr(e.base)
