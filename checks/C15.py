"""Every heartbeat the dongle sends is answered."""
from sa.check import facts_str
from sa.consumermodel import consumer
from sa.core import K, NONE, Term, show

TITLE = "Every heartbeat request received is answered in kind"
RULE = (
    "The receiving task's loop over decoded messages is explored with an arbitrary message. On every path where the message is, or may be, a HeartbeatRequest, "
    "exactly one item is queued for transmission: the encoded expected_response() of that message, without futures. The loop is not left early. "
    "expected_response() is explored: a HeartbeatResponse carrying the request's adapter type."
)
HB = "pdu.heartbeat:HeartbeatRequest"


def check(chk):
    I = chk.interp()
    answer(chk, I)
    t, ps, rows = consumer(chk, I)
    where = chk.loc(I, t)
    yes = 0
    for r in rows:
        hb = r.is_a(I, HB)
        if r.kind in ("break", "return"):
            if not any(f.op == "attr" and f.args[1] == "_shutting_down" and b is True for f, b in r.st.facts.items()):
                chk.violation("left-early", t.name, where, f"the loop over decoded messages is left on a message, so those behind it are dropped ({facts_str(r.st)})")
            continue
        if hb is False or not_a_pdu(r):
            extra = [e for e in r.evs if e.name in ("put", "put_nowait")]
            if extra:
                chk.violation("unasked", t.name, f"{t.module.path}:{extra[0].line()} ({t.qual})", f"a frame is sent in reply to a message that is not a heartbeat ({facts_str(r.st)})")
            else:
                chk.ok("other messages: nothing sent")
            continue
        puts = [e for e in r.evs if e.name in ("put", "put_nowait") and (e.path() or "").endswith("tx_queue")]
        if len(puts) != 1:
            chk.violation("unanswered" if not puts else "answered-twice", t.name, where, f"a message that may be a heartbeat is handled with {len(puts)} replies queued ({facts_str(r.st)})")
            continue
        e = puts[0]
        if e.name == "put_nowait":
            chk.violation("unanswered", t.name, f"{t.module.path}:{e.line()} ({t.qual})", "a reply is dropped when the transmit queue is full")
            continue
        w = f"{t.module.path}:{e.line()} ({t.qual})"
        timed = [x for x in r.evs if x.name in ("asyncio.wait_for", "wait_for") and e.res is not None and e.res in (x.arg(0, "fut"),)]
        if timed:
            chk.violation("unanswered", t.name, w, "the reply is given up when the transmit queue stays full for a while")
            continue
        v = e.arg(0, "item")
        if not (v is not None and v.op == "tup" and len(v.args) == 3):
            chk.violation("wrong-answer", t.name, w, f"what is queued is {show(v) if v is not None else v}")
            continue
        if v.args[1] != NONE or v.args[2] != NONE:
            chk.violation("wrong-answer", t.name, w, f"the heartbeat reply is queued with futures that may stop it from being sent: {show(v)}")
            continue
        encs = [x for x in r.evs if x.name == "encode" and x.res == v.args[0]]
        exps = [x for x in r.evs if x.name == "expected_response" and x.base == r.msg]
        if encs and any(encs[0].base == x.res or encs[0].base == Term("await", x.res) for x in exps):
            yes += 1
            chk.ok("heartbeats answered", facts_str(r.st))
        else:
            chk.violation("wrong-answer", t.name, w, f"the reply queued is not the encoded expected_response() of the request: {show(v.args[0])}")
    if not yes and not chk.findings:
        chk.violation("unanswered", t.name, where, "no path answers a heartbeat")


def not_a_pdu(r):
    """The framer reports undecodable frames as exception objects."""
    return any(f.op == "isinstance" and f.args[0] == r.msg and b is True and "Exc" in show(f.args[1]) for f, b in r.st.facts.items())


def answer(chk, I):
    fn = I.func(HB + ".expected_response")
    resp = I.cls("pdu.heartbeat:HeartbeatResponse")
    where = chk.loc(I, fn)
    for p in chk.explore(I, fn):
        if p.kind != "return":
            chk.violation("answer", fn.qual, where, f"expected_response() fails with {show(p.val)}")
            continue
        o = I.hget(p.st, p.val) if p.val.op == "ref" else None
        if o is None or o.cls is not resp:
            chk.violation("answer", fn.qual, where, f"the answer to a heartbeat is {show(p.val)}, not a HeartbeatResponse")
            continue
        v = I.load_attr(p.val, "data_adapter_type", p.st, None)[0][1]
        if v.op == "attr" and v.args[:2] == (Term("param", "self"), "data_adapter_type"):
            chk.ok("answer carries the adapter type")
        else:
            chk.violation("answer", fn.qual, where, f"the answer carries adapter type {show(v)} instead of the request's")
    code = I.class_attr(resp, "function_code", I.gstate)
    code = code[1] if isinstance(code, tuple) else code
    if code == K(1):
        chk.ok("answer's function code")
    else:
        chk.violation("answer", "HeartbeatResponse", where, f"heartbeat responses are sent with function code {show(code) if code else code}")


MINIMUMS = [("heartbeats answered", 1), ("answer carries the adapter type", 1)]
