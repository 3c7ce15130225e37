"""Every way the connection can die ends in one complete teardown that fails all waiting callers."""
from sa.check import facts_str
from sa.clientmodel import ClientPolicy, attr_is, background_tasks, call_target, client_class, events, resolved, segment, teardown
from sa.core import K, NONE, Term, is_k, kval, show
from sa.events import receiver_and_args

TITLE = "A lost connection fails every waiting request and leaves the client reconnectable"
RULE = (
    "Both background tasks are explored with socket errors, stalls and EOF at every read, write and drain: each way out not known to be an intended shutdown must "
    "call the teardown with a ConnectionLost, after failing the futures of the frame in hand. The teardown's own paths must mark the client lost and disconnected, fail every "
    "unresolved in-flight and queued future, forget the in-flight table and cancel the other task. send_request_and_await_response must refuse when lost, re-check "
    "after queueing and let ConnectionLost through. close() must finish on every path; connect() must clear the lost and shutdown marks, "
    "close what is left of a previous connection and put an empty framer in place before it starts its tasks."
)
S = Term("param", "self")


def check(chk):
    I = chk.interp()
    lost = I.cls("exceptions:ConnectionLost")
    td = teardown(I)
    chk.require(lost is not None and td is not None, "connection teardown")
    hierarchy(chk, I, lost)
    connect, paths, tasks = background_tasks(chk, I)
    connect_marks(chk, I, connect, paths)
    for t in tasks:
        task_exits(chk, I, t, td, lost)
    teardown_body(chk, I, td)
    sender(chk, I, td, lost)
    closing(chk, I)


def hierarchy(chk, I, lost):
    for h in (Term("ext", "TimeoutError"), Term("cls", I.cls("exceptions:CommunicationError"))):
        if I.exc_sub(Term("cls", lost), h):
            chk.ok("exception hierarchy")
        else:
            chk.violation("hierarchy", "ConnectionLost", f"{lost.module.path}:{lost.node.lineno}", f"ConnectionLost is no longer a {show(h)}")


def last_store(evs, name):
    out = None
    for e in evs:
        if e.name == "store:" + name:
            out = e.arg(0)
    return out


def true(t):
    return t is not None and is_k(t) and kval(t) is True


def false(t):
    return t is not None and is_k(t) and kval(t) is False


class BufferPolicy(ClientPolicy):
    """ClientPolicy that also looks into the framer's own methods."""

    def inline(self, fn, interp, st):
        return fn.module.name.endswith(".framer") and not fn.is_gen or super().inline(fn, interp, st)

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, _ = receiver_and_args(callee, args)
        if callee.op == "attr" and base is not None and attr_is(base, "framer"):
            _, v = interp.cls("framer:ClientFramer").lookup(name)
            if v is not None and v.op == "fn" and not v.args[0].is_gen and v.args[0].kind not in ("static", "class"):
                return interp.call_default(Term("bm", v, base), args, kwargs, st, node)
        return super().on_call(interp, callee, args, kwargs, st, node)


def leftovers_absent(st):
    """The path has seen that no stream or task of a previous connection is held (close() drops them all)."""
    names = ("network_consumer_task", "network_producer_task", "reader", "writer")
    for f, b in st.facts.items():
        held = next((x for x in parts(f) if any(attr_is(x, n) for n in names)), None)
        if held is not None and (b is False and f == held or b is True and f != held and NONE in parts(f)):
            return True
        if b is False and f.op in ("hasattr", "call", "app") and any(K(n) in parts(f) for n in names):
            return True
    return False


def fresh_buffer(I, st, evs):
    """A new framer, or an emptied buffer, is in place at the end of `evs`."""
    for e in evs:
        v = e.arg(0) if e.name.startswith("store:") else None
        if e.name == "store:framer" and v is not None and v.op == "ref":
            return True
        if e.name == "store:_buffer" and v is not None and (is_k(v) and not kval(v) or v.op == "ref"):
            return True
        if e.name == "clear" and e.base is not None and any(attr_is(x, "_buffer") for x in parts(e.base)):
            return True
    return False


def buffer_reset_by(chk, I):
    """close() leaves an empty buffer on each of its paths."""
    fn = I.func("client.client:Client.close")
    I.policy = BufferPolicy(I, stores={"framer", "_buffer"})
    return all(fresh_buffer(I, p.st, events(p.st.trace)) for p in chk.explore(I, fn))


def connect_marks(chk, I, connect, _):
    pol = BufferPolicy(I, opaque={"close", "_task_network_consumer", "_task_network_producer"}, stores={"_connection_lost", "_shutting_down", "connected", "framer", "_buffer"}, raises=lambda I, ev, st: ("OSError",) if ev.name == "asyncio.wait_for" else ())
    I.policy = pol
    where = chk.loc(I, connect)
    closes_buffer = None
    n = 0
    for p in chk.explore(I, connect):
        evs = events(p.st.trace)
        first = next((i for i, e in enumerate(evs) if e.name.split(".")[-1] in ("create_task", "ensure_future")), None)
        if first is None:
            if p.kind == "return":
                chk.violation("connect-marks", "connect", where, f"connect() returns without starting its tasks ({facts_str(p.st)})")
            elif true(last_store(evs, "connected")):
                chk.violation("connect-marks", "connect", where, "a failed connect() leaves the client marked connected")
            continue
        for m in ("_connection_lost", "_shutting_down"):
            if not false(last_store(evs[:first], m)):
                chk.violation("connect-marks", "connect", where, f"tasks are started without {m} having been cleared")
            else:
                chk.ok("connect clears marks")
        opened = next((i for i, e in enumerate(evs) if e.name.split(".")[-1] == "open_connection"), first)
        closed = any(e.name == "close" for e in evs[:opened])
        if closed or leftovers_absent(p.st):
            chk.ok("connect closes what is left of the previous connection")
        else:
            chk.violation("leftovers", "connect", where, f"a new connection is opened without close() although the previous one's stream or tasks may still be there ({facts_str(p.st)})")
        if fresh_buffer(I, p.st, evs[:first]):
            ok = True
        else:
            if closes_buffer is None:
                closes_buffer = buffer_reset_by(chk, I)
                I.policy = pol
            ok = closes_buffer
        if ok:
            chk.ok("connect starts with an empty receive buffer")
        else:
            chk.violation("stale-buffer", "connect", where, "the reading task is started with what the previous connection left in the framer: a frame it cut short swallows the first frames of this one")
        if p.kind == "return" and not true(last_store(evs, "connected")):
            chk.violation("connect-marks", "connect", where, "connect() succeeds without marking the client connected")
        n += 1
    chk.count("connecting paths", n)


def io_raises(I, ev, st):
    if ev.name in ("asyncio.wait_for",):
        return ("TimeoutError", "OSError")
    if ev.name in ("read", "readexactly", "write", "writelines", "drain") and (ev.base is not None and (ev.path() or "").startswith("self.")):
        return ("OSError",) if ev.name != "drain" else ()
    return ()


def task_exits(chk, I, t, td, lost):
    pol = ClientPolicy(I, opaque={td.name, "_emit_to_sink", "_note_eof_drop"}, watch={"encode", "done", "update"}, raises=io_raises)
    I.policy = pol
    where = chk.loc(I, t)
    ps = chk.explore(I, t)
    for evs in [events(p.st.trace) for p in ps] + [segment(h, e) for _, h, e, _ in pol.ends]:
        for i, d in enumerate(evs):
            if d.name == "drain":
                w = next((x for x in evs[i + 1 :] if x.name == "asyncio.wait_for" and x.arg(0, "fut") == d.res), None)
                limit = w.arg(1, "timeout") if w is not None else None
                if limit is None or limit == NONE:
                    chk.violation("unbounded-drain", t.name, f"{t.module.path}:{d.line()} ({t.qual})", "the socket is drained without a time limit, so a stalled connection is never noticed")
                else:
                    chk.ok("drains are bounded")
    for p in ps:
        evs = events(p.st.trace)
        if p.kind == "raise":
            chk.violation("task-dies", t.name, where, f"a socket error ends the task without any teardown: {show(p.val)} ({facts_str(p.st)})")
            continue
        down = [i for i, e in enumerate(evs) if e.name == td.name]
        if not down:
            if shutting_down(I, p.st):
                chk.ok("intended shutdowns")
            else:
                chk.violation("no-teardown", t.name, where, f"the task ends on a path that is not an intended shutdown without tearing the connection down ({facts_str(p.st)})")
            continue
        exc = evs[down[0]].arg(0, "exc")
        if not is_lost(I, exc, lost):
            chk.violation("wrong-signal", t.name, where, f"the teardown is given {show(exc)} instead of a ConnectionLost")
        else:
            chk.ok("unexpected exits torn down", facts_str(p.st))
        in_hand(chk, I, t, p.st, evs, lost, exiting=True)
    for node, h, e, k in pol.ends:
        seg = segment(h, e)
        if k in ("next", "continue", "normal", "end") or k is None or k == "fall":
            in_hand(chk, I, t, e, seg, lost, exiting=False)


def is_lost(I, exc, lost):
    if exc is None:
        return False
    if exc.op == "ref":
        return False
    return exc.op == "exc" and I.exc_sub(exc.args[0], Term("cls", lost))


def shutting_down(I, st):
    for f, b in st.facts.items():
        if attr_is(f, "_shutting_down") and b is True:
            return True
    return False


def in_hand(chk, I, t, st, evs, lost, exiting):
    """The frame taken from the queue in this iteration must not leave its sender waiting."""
    gets = [i for i, e in enumerate(evs) if e.name in ("get", "get_nowait") and e.path() == "self.tx_queue"]
    if not gets:
        return
    i = gets[-1]
    src = evs[i].res
    after = evs[i + 1 :]
    if exiting and not any(e.name in ("raises:asyncio.wait_for", "raises:write", "raises:drain") for e in after):
        # the loop ended normally: the last iteration is covered by its own end
        return
    sent, resp = Term("idx", src, K(1)), Term("idx", src, K(2))
    what = (sent, resp) if exiting else (sent,)
    for f, n in zip(what, ("frame-sent", "response")):
        if resolved(I, st, after, f):
            chk.ok("futures of the frame in hand")
        else:
            chk.violation("stranded-sender", t.name, chk.loc(I, t), f"the {n} future of the frame taken from the queue is left unresolved on a path that {'ends the task' if exiting else 'goes on to the next frame'} ({facts_str(st)})")
    if exiting:
        for e in after:
            if e.name == "set_exception" and e.base in what and not is_lost(I, e.arg(0), lost):
                chk.violation("wrong-signal", t.name, chk.loc(I, t), f"a waiting sender is failed with {show(e.arg(0))} instead of ConnectionLost")


def queue_raises(I, ev, st):
    if ev.name == "get_nowait":
        for f, b in st.facts.items():
            if f.op == "call" and b is False and f.args[0].op == "attr" and f.args[0].args[1] == "empty":
                return ()
        return ("asyncio.QueueEmpty",)
    return ()


def teardown_body(chk, I, td):
    pol = ClientPolicy(I, watch={"done", "asyncio.current_task"}, stores={"_connection_lost", "connected", "expected_responses"}, raises=queue_raises)
    I.policy = pol
    where = chk.loc(I, td)
    ps = chk.explore(I, td)
    exc = Term("param", [a.arg for a in td.node.args.args if a.arg != "self"][0])
    n = 0
    sweeps = {node.lineno for node, h, e, _ in pol.ends if any(ev.base is not None and one_in_flight(ev.base) for ev in segment(h, e))}
    for p in ps:
        evs = events(p.st.trace)
        if p.kind == "raise":
            chk.violation("teardown-raises", td.name, where, f"the teardown itself fails with {show(p.val)}")
            continue
        early = [f for f, b in p.st.facts.items() if b is True and (attr_is(f, "_shutting_down") or attr_is(f, "_connection_lost"))]
        if early and not any(e.name.startswith("store:") for e in evs):
            chk.ok("teardown: nothing to do")
            continue
        n += 1
        if not true(last_store(evs, "_connection_lost")):
            chk.violation("teardown-incomplete", td.name, where, f"the connection is not marked lost ({facts_str(p.st)})")
        if not false(last_store(evs, "connected")):
            chk.violation("teardown-incomplete", td.name, where, f"the client stays marked connected ({facts_str(p.st)})")
        in_flight(chk, I, td, p.st, evs, sweeps, where)
        reset(chk, I, td, p.st, evs, where)
        emptied(chk, I, td, p.st, evs, where)
        siblings(chk, I, td, p.st, evs, where)
    if not n:
        chk.violation("teardown-incomplete", td.name, where, "no path through the teardown does anything")
    k = 0
    for node, h, e, kind in pol.ends:
        seg = segment(h, e)
        for i, ev in enumerate(seg):
            if ev.name == "get_nowait" and (ev.path() == "self.tx_queue") and not any(x.name == "raises:get_nowait" for x in seg[i:]):
                for j, nm in ((1, "frame-sent"), (2, "response")):
                    fut = Term("idx", ev.res, K(j))
                    if not resolved(I, e, seg, fut, ("set_exception", "cancel")):
                        chk.violation("teardown-incomplete", td.name, where, f"the {nm} future of a queued frame is dropped without being failed ({facts_str(e)})")
                    else:
                        k += 1
                        chk.ok("teardown: queued futures")
        wrong = [ev for ev in seg if ev.name == "set_exception" and ev.arg(0) != exc and not (ev.arg(0) is not None and ev.arg(0).op == "exc")]
        for ev in wrong:
            chk.violation("wrong-signal", td.name, where, f"a waiting caller is failed with {show(ev.arg(0))}")
    if not k:
        chk.violation("teardown-incomplete", td.name, where, "queued frames are not drained")


def in_flight(chk, I, td, st, evs, sweeps, where):
    for f, b in st.facts.items():
        if b is False and from_expected(f):
            chk.ok("teardown: in-flight futures")
            return
    futs = {x for f in list(st.facts) + [e.base for e in evs if e.base is not None] for x in parts(f) if one_in_flight(x)}
    if any(a[0] == "broke" and a[1] in sweeps for a in st.aux):
        chk.violation("teardown-incomplete", td.name, where, "the sweep over in-flight requests can stop early")
    if any(resolved(I, st, evs, x, ("set_exception",)) for x in futs):
        chk.ok("teardown: in-flight futures")
    elif not futs:
        chk.violation("teardown-incomplete", td.name, where, f"in-flight requests are never failed ({facts_str(st)})")
    else:
        chk.violation("teardown-incomplete", td.name, where, f"an unresolved in-flight request is not failed ({facts_str(st)})")


def one_in_flight(x):
    """An arbitrary future of the in-flight table."""
    if x.op == "val":
        return from_expected(x.args[0])
    if x.op == "elem":
        return from_expected(x.args[0])
    return x.op == "idx" and x.args[0].op in ("elem", "val") and from_expected(x.args[0].args[0])


def from_expected(t):
    if attr_is(t, "expected_responses"):
        return True
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("values", "items", "copy"):
        return from_expected(t.args[0].args[0])
    if t.op in ("chain", "list", "tuple", "view", "enumerate", "zip"):
        return any(from_expected(a) for a in t.args if isinstance(a, Term))
    return False


def reset(chk, I, td, st, evs, where):
    v = last_store(evs, "expected_responses")
    ok = v is not None and v.op == "ref" and I.hget(st, v).kind == "dict" and not I.hget(st, v).data
    ok = ok or any(e.name == "clear" and (e.path() or "") == "self.expected_responses" for e in evs)
    if ok:
        chk.ok("teardown: in-flight table forgotten")
    else:
        chk.violation("teardown-incomplete", td.name, where, f"the in-flight table is not reset ({facts_str(st)})")


def emptied(chk, I, td, st, evs, where):
    for f, b in st.facts.items():
        if f.op == "call" and f.args[0].op == "attr" and attr_is(f.args[0].args[0], "tx_queue") and f.args[0].args[1] == "empty" and b is True:
            chk.ok("teardown: queue emptied")
            return
    if any(e.name == "raises:get_nowait" for e in evs):
        chk.ok("teardown: queue emptied")
        return
    chk.violation("teardown-incomplete", td.name, where, f"the transmit queue is not drained to the end ({facts_str(st)})")


def siblings(chk, I, td, st, evs, where):
    cur = next((e.res for e in evs if e.name == "asyncio.current_task"), None)
    for a in ("network_consumer_task", "network_producer_task"):
        task = None
        for f in list(st.facts) + [e.base for e in evs if e.base is not None]:
            for x in parts(f):
                if attr_is(x, a):
                    task = x
        if task is None:
            chk.violation("teardown-incomplete", td.name, where, f"{a} is not stopped ({facts_str(st)})")
            continue
        if resolved(I, st, evs, task, ("cancel",)):
            chk.ok("teardown: tasks stopped")
            continue
        if cur is not None and any(b is True and f.op == "cmp" and f.args[0] in ("is", "==") and set(f.args[1:]) == {task, cur} for f, b in st.facts.items()):
            chk.ok("teardown: tasks stopped")
            continue
        chk.violation("teardown-incomplete", td.name, where, f"{a} is left running ({facts_str(st)})")


def parts(t):
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from parts(a)


def sender(chk, I, td, lost):
    fn = I.func("client.client:Client.send_request_and_await_response")

    def raises(I, ev, st):
        if ev.name == "asyncio.wait_for":
            return (I.exc_term(lost, exact=True), I.exc_term("TimeoutError", exact=True))
        return ()

    pol = ClientPolicy(I, opaque={td.name}, watch={"encode", "done", "shape_hash", "expected_response", "record_retry"}, raises=raises)
    I.policy = pol
    where = chk.loc(I, fn)
    ps = chk.explore(I, fn)
    refused = 0
    tails = [(p.kind, p.st, p.val, events(p.st.trace)) for p in ps]
    for kind, st, val, evs in tails:
        entry = [b for f, b in st.facts.items() if attr_is(f, "_connection_lost")]
        puts = [i for i, e in enumerate(evs) if e.name in ("put", "put_nowait")]
        if kind == "raise" and not puts and entry and entry[0] is True:
            if is_lost(I, val, lost):
                refused += 1
                chk.ok("sender: refused when lost")
            else:
                chk.violation("refusal", fn.name, where, f"a lost connection is refused with {show(val)}")
        if puts and not (entry and entry[0] is False):
            chk.violation("refusal", fn.name, where, f"a frame is queued without checking that the connection is alive ({facts_str(st)})")
        waits(chk, I, fn, st, evs, where, kind, val, lost)
    for node, h, e, k in pol.ends:
        waits(chk, I, fn, e, segment(h, e), where, "loop", None, lost)
    if not refused:
        chk.violation("refusal", fn.name, where, "no path refuses a request on a lost connection")


def waits(chk, I, fn, st, evs, where, kind, val, lost):
    for i, e in enumerate(evs):
        if e.name == "raises:asyncio.wait_for" and "ConnectionLost" in str(dict(e.kw)["exc"]):
            later = [x for x in evs[i + 1 :] if x.name in ("put", "put_nowait", "asyncio.wait_for", "asyncio.sleep")]
            if kind == "raise" and is_lost(I, val, lost) and not later:
                chk.ok("sender: loss passed on")
            elif kind == "loop" and any(x.name == "asyncio.wait_for" and x.arg(0) is not None for x in evs[:i]) and is_put(evs[:i]):
                # queueing never raises ConnectionLost itself
                continue
            elif is_put(evs[:i]):
                continue
            else:
                chk.violation("loss-swallowed", fn.name, where, f"ConnectionLost while waiting is not passed on to the caller ({facts_str(st)})")
    # after queueing, the lost flag must be read again before waiting for the producer
    for i, e in enumerate(evs):
        if e.name != "put":
            continue
        k = next((j for j in range(i + 1, len(evs)) if evs[j].name == "asyncio.wait_for" and mentions(evs[j].arg(0), e.res) is False), None)
        if k is None:
            continue
        ep = e.ctx
        flags = [(f, b) for f, b in st.facts.items() if attr_is(f, "_connection_lost")]
        if len({f for f, _ in flags}) >= 2 or (kind == "loop" and flags):
            fresh = [b for f, b in flags][-1]
            if fresh is False:
                chk.ok("sender: re-checked after queueing")
                continue
        chk.violation("enqueue-race", fn.name, where, f"after queueing, the sender waits without re-checking that the connection is still alive ({facts_str(st)})")


def is_put(evs):
    """Did the last wait_for wrap the queueing itself?"""
    w = [e for e in evs if e.name == "asyncio.wait_for"]
    if not w:
        return False
    a = w[-1].arg(0)
    return a is not None and a.op == "call" and a.args[0].op == "attr" and a.args[0].args[1] == "put"


def mentions(t, x):
    return any(p == x for p in parts(t)) if t is not None else False


def closing(chk, I):
    fn = I.func("client.client:Client.close")
    pol = ClientPolicy(I, watch={"done"}, stores={"connected", "_shutting_down", "expected_responses"}, raises=lambda I, ev, st: ("OSError",) if ev.name == "wait_closed" else queue_raises(I, ev, st))
    I.policy = pol
    where = chk.loc(I, fn)
    for p in chk.explore(I, fn):
        evs = events(p.st.trace)
        if p.kind == "raise":
            chk.violation("close-stops", "close", where, f"close() is abandoned half-way by {show(p.val)}: the rest of the teardown is skipped and a reconnect fails the same way")
            continue
        if not false(last_store(evs, "connected")) or not true(last_store(evs, "_shutting_down")):
            chk.violation("close-incomplete", "close", where, "close() does not mark the client disconnected and shutting down")
        reset(chk, I, fn, p.st, evs, where)
        for a in ("network_consumer_task", "network_producer_task"):
            fa = next((f for f in list(p.st.facts) + [e.base for e in evs if e.base is not None] for f in parts(f) if attr_is(f, a)), None)
            if fa is not None and resolved(I, p.st, evs, fa, ("cancel",)):
                chk.ok("close: tasks cancelled")
            else:
                chk.violation("close-incomplete", "close", where, f"{a} is not cancelled ({facts_str(p.st)})")
    for node, h, e, kind in pol.ends:
        seg = segment(h, e)
        for i, ev in enumerate(seg):
            if ev.name == "get_nowait" and not any(x.name == "raises:get_nowait" for x in seg[i:]):
                if resolved(I, e, seg, Term("idx", ev.res, K(1))):
                    chk.ok("close: queued senders released")
                else:
                    chk.violation("close-incomplete", "close", where, f"a queued frame is dropped without releasing its sender ({facts_str(e)})")


MINIMUMS = [("unexpected exits torn down", 4), ("futures of the frame in hand", 4), ("teardown: in-flight futures", 1), ("sender: refused when lost", 1), ("sender: loss passed on", 1), ("sender: re-checked after queueing", 1)]
