"""The public request/response call of the client, explored with a timeout possible at every wait."""
from __future__ import annotations

import ast

from .clientmodel import ClientPolicy, events, segment
from .core import K, NONE, Term, is_k, kval

NAME = "send_request_and_await_response"
WATCH = {"encode", "done", "shape_hash", "expected_response", "record_retry", "pop", "cancel", "result", "setdefault"}


class Row:
    __slots__ = ("kind", "st", "val", "evs", "seg", "node", "head")

    def __init__(self, kind, st, val, evs, seg=None, node=None, head=None):
        self.kind, self.st, self.val, self.evs, self.seg, self.node, self.head = kind, st, val, evs, seg, node, head


def sender(chk, I):
    fn = I.func(f"client.client:Client.{NAME}")

    def raises(I, ev, st):
        return (I.exc_term("TimeoutError", exact=True),) if ev.name == "asyncio.wait_for" else ()

    from .clientmodel import teardown

    td = teardown(I)
    pol = ClientPolicy(I, opaque={td.name} if td else (), watch=WATCH, items={"expected_responses"}, raises=raises)
    I.policy = pol
    ps = chk.explore(I, fn)
    rows = [Row(p.kind, p.st, p.val, events(p.st.trace)) for p in ps]
    loops = [Row("loop:" + k, e, None, events(e.trace), segment(h, e), node, h) for node, h, e, k in pol.ends + pol.outs]
    return fn, rows, loops, pol


def is_registry(t):
    return t is not None and t.op == "attr" and t.args[1] == "expected_responses"


def strip(t):
    """The call behind an await."""
    while t is not None and t.op == "await":
        t = t.args[0]
    return t


def result_of(t):
    """The future whose result this value is, if it is one."""
    t = strip(t)
    if t is None or t.op != "call":
        return None
    f = t.args[0]
    if f.op in ("attr", "meth") and f.args[1] == "result":
        return f.args[0]
    if f == Term("ext", "asyncio.wait_for") and t.args[1]:
        return t.args[1][0]
    return t


def attempts(evs):
    """(index, event, item) of every frame queued."""
    return [(i, e, e.arg(0, "item")) for i, e in enumerate(evs) if e.name in ("put", "put_nowait") and (e.path() or "").endswith("tx_queue")]
