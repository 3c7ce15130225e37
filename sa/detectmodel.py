"""Discovery code of the client: which methods probe devices and record absences, and how each path goes."""
from __future__ import annotations

import ast

from .clientmodel import ClientPolicy, Ev, client_class, events, segment
from .core import Term

SEND = "send_request_and_await_response"


class DetectPolicy(ClientPolicy):
    def inline(self, fn, interp, st):
        if fn.name == "__init__" and fn.module.name.startswith("givenergy_modbus.pdu"):
            return True
        return super().inline(fn, interp, st)

    def on_del(self, interp, base, key, st, node):
        if base.op == "attr" and base.args[1] == "register_caches":
            return st.emit(Ev("delitem:register_caches", base, [key], {}, node, None))
        return super().on_del(interp, base, key, st, node)

    def on_assume(self, interp, term, b, st, node):
        """The client's own record that the connection is gone, read by discovery."""
        if term.op == "attr" and (term.args[1] == "_connection_lost" and b or term.args[1] == "connected" and not b):
            return st.emit(Ev("known-lost", None, (Term("note", term.args[1]),), {}, node, None))
        return st


def methods(I):
    out = {}
    for c in client_class(I).repo_mro():
        for n, v in c.attrs.items():
            if isinstance(v, Term) and v.op == "fn":
                out.setdefault(n, v.args[0])
    return out


def called(fn):
    """Names of methods this function calls or refers to."""
    return {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute)}


def reach(ms, target):
    """Methods from which `target` is reachable through client methods."""
    out = {n for n, f in ms.items() if target in called(f)}
    while True:
        more = {n for n, f in ms.items() if n not in out and called(f) & out & set(ms)}
        if not more:
            return out
        out |= more


def recorders(I):
    """Methods that both send requests and record absences, smallest first, with what to keep opaque in each."""
    ms = methods(I)
    q = reach(ms, SEND) & reach(ms, "mark_absent")
    q.discard(SEND)
    res = []
    for n in sorted(q):
        sub = called(ms[n]) & q - {n}
        if sub and not any(isinstance(x, (ast.Try, ast.With, ast.AsyncWith)) for x in ast.walk(ms[n].node)) and "mark_absent" not in called(ms[n]) - {"_derive_capabilities"}:
            continue  # only passes exceptions on
        res.append((ms[n], sub if len(sub) > 1 or n in ("detect", "refresh_plant", "watch_plant") else set()))
    return res


def explorations(chk, I):
    """(function, [(kind, state, value, events)]) for every recorder, its loop iterations included."""
    lost = I.cls("exceptions:ConnectionLost")
    out = []
    for fn, opaque in recorders(I):

        def raises(I, ev, st, opaque=opaque):
            if ev.name == SEND or ev.name in opaque:
                return (I.exc_term(lost, exact=True, note="lost"), I.exc_term("TimeoutError", exact=True, note="timeout"))
            return ()

        pol = DetectPolicy(
            I,
            opaque={SEND, "close"} | opaque,
            watch={"mark_absent", "pop", "invalidate_presence"},
            raises=raises,
        )
        pol.unroll = 3
        I.policy = pol
        ps = chk.explore(I, fn)
        rows = [(p.kind, p.st, p.val, events(p.st.trace)) for p in ps]
        rows += [("loop:" + str(k), e, None, segment(h, e)) for _, h, e, k in pol.ends]
        out.append((fn, rows, opaque))
    return out


def exc_of(ev):
    """Which exception a raises: event stands for."""
    return str(dict(ev.kw)["exc"])


def is_lost_event(ev):
    return ev.name.startswith("raises:") and "ConnectionLost" in exc_of(ev)


def is_timeout_event(ev):
    return ev.name.startswith("raises:") and "TimeoutError" in exc_of(ev)


def block_of(I, st, req):
    """(device address, register type, base, count) a read request asks for."""
    if req is None or req.op != "ref":
        return None
    o = I.hget(st, req)
    if o.kind != "inst" or o.cls is None:
        return None
    t = "HR" if "Holding" in o.cls.name else "IR" if "Input" in o.cls.name else None
    vals = []
    for a in ("device_address", "base_register", "register_count"):
        r = I.load_attr(req, a, st, None)
        if len(r) != 1:
            return None
        vals.append(r[0][1])
    return vals[0], t, vals[1], vals[2]
