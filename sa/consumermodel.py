"""What the receiving task does with one decoded message."""
from __future__ import annotations

from .clientmodel import ClientPolicy, background_tasks, events, segment
from .core import K, NONE, Term
from .events import callee_of

WATCH = {"encode", "done", "update", "shape_hash", "expected_response", "decode", "add_done_callback"}


class Row:
    """One way an arbitrary message is handled."""

    __slots__ = ("kind", "st", "evs", "msg", "task", "node")

    def __init__(self, kind, st, evs, msg, task, node):
        self.kind, self.st, self.evs, self.msg, self.task, self.node = kind, st, evs, msg, task, node

    def is_a(self, I, name):
        """Is the message known to be (True) / not to be (False) an instance of this class?"""
        ci = I.cls(name)
        res = None
        for f, b in self.st.facts.items():
            if f.op == "isinstance" and f.args[0] == self.msg and f.args[1].op == "cls":
                c = f.args[1].args[0]
                if b and c.is_subclass(ci):
                    return True
                if not b and ci.is_subclass(c):
                    return False
                if b and not related(I, c, ci):
                    res = False
            elif f.op == "isinstance" and f.args[0] == self.msg and b and f.args[1].op in ("cls", "ext"):
                res = res
        return res


def related(I, a, b):
    """Can one object be an instance of both?"""
    for m in I.prog.modules.values():
        for v in I.G[m.env].data.values():
            if isinstance(v, Term) and v.op == "cls" and v.args[0].is_subclass(a) and v.args[0].is_subclass(b):
                return True
    return False


def message_of(t):
    """The loop element a term stands for when it is one of the decoded messages."""
    return t.op == "elem" and source(t.args[0])


def source(t):
    if t.op == "call":
        n = callee_of(t.args[0])[0]
        if n == "decode":
            return True
    if t.op in ("chain", "view", "list", "tuple", "await", "enumerate"):
        return any(source(a) for a in t.args if isinstance(a, Term))
    return False


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def consumer(chk, I):
    _, _, tasks = background_tasks(chk, I)
    import ast

    for t in tasks:
        pol = ClientPolicy(I, opaque={"_abort_connection", "_emit_to_sink", "_note_eof_drop"}, watch=WATCH)
        I.policy = pol
        ps = chk.explore(I, t)
        rows = []
        for node, h, e, k in pol.ends + pol.outs:
            seg = segment(h, e)
            msg = find_msg(e, h)
            if msg is None or not is_message_loop(I, node, h, e, msg):
                continue
            rows.append(Row(k, e, seg, msg, t, node))
        if rows:
            # ways out of the task in the middle of a message
            return t, ps, rows
    chk.require(False, "the loop over decoded messages in a background task")


def find_msg(e, h):
    for f in e.facts:
        for x in subterms(f):
            if message_of(x):
                return x
    for ev in events(e.trace):
        for a in list(ev.args) + ([ev.base] if ev.base is not None else []):
            for x in subterms(a):
                if message_of(x):
                    return x
    return None


def is_message_loop(I, node, h, e, msg):
    """The loop whose head does not know the element yet."""
    import ast

    if not isinstance(node, (ast.For, ast.AsyncFor)):
        return False
    for f in h.facts:
        if any(x == msg for x in subterms(f)):
            return False
    return True
