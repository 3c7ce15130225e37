"""One paced writer per connection, writing whole queued frames and nothing else."""
import ast

from sa.check import facts_str
from sa.clientmodel import ClientPolicy, attr_is, background_tasks, call_target, events, module_calls, segment, sites
from sa.core import K, Term, is_k, kval, show

TITLE = "Frames leave through a single writer, one at a time and paced"
RULE = (
    "The coroutines connect() starts are found from its create_task calls; exactly one of them writes to the socket, connect() starts it once and only after "
    "close() when an earlier pair of tasks may exist. Each iteration of its loop writes at most one frame, which is the first item of the tuple just taken "
    "from the transmit queue, never when that tuple's response future is already done, and sleeps at least tx_message_wait. Every put on the transmit queue "
    "carries the output of encode(). No other call site writes to a stream."
)
SUSPEND = {"asyncio.sleep", "asyncio.wait_for", "get", "put", "drain", "read", "wait_closed", "asyncio.gather", "asyncio.wait"}
WRITES = ("write", "writelines", "sendall", "send")


def check(chk):
    I = chk.interp()
    connect, paths, tasks = background_tasks(chk, I)
    starts(chk, I, connect, paths, tasks)
    writers = []
    explored = {}
    for t in tasks:
        pol = ClientPolicy(I, opaque={"_abort_connection", "_emit_to_sink"}, watch={"encode", "done"}, raises=lambda I, ev, st: ("TimeoutError", "OSError") if ev.name == "asyncio.wait_for" else ())
        I.policy = pol
        I.stats["functions"] = set()
        ps = chk.explore(I, t)
        explored[t.qual] = set(I.stats["functions"]) | {t.qual}
        segs = [(n, h, e, k, segment(h, e)) for n, h, e, k in pol.ends]
        if any(ev.name in WRITES for p in ps for ev in events(p.st.trace)) or any(ev.name in WRITES for s in segs for ev in s[4]):
            writers.append((t, ps, segs))
        puts(chk, I, t, [(p.st, events(p.st.trace)) for p in ps] + [(e, s) for _, _, e, _, s in segs])
    if len(writers) != 1:
        chk.violation("one-writer", "connect", chk.loc(I, connect), f"{len(writers)} of the tasks started by connect() write to the socket: {[w[0].name for w in writers]}")
    for t, ps, segs in writers:
        writer(chk, I, t, ps, segs)
    other_sites(chk, I, {f for w in writers for f in explored[w[0].qual]})
    senders(chk, I, tasks)


def starts(chk, I, connect, paths, tasks):
    where = chk.loc(I, connect)
    S = Term("param", "self")
    for p in paths:
        evs = events(p.st.trace)
        made = [(i, call_target(e.arg(0))) for i, e in enumerate(evs) if e.name.split(".")[-1] in ("create_task", "ensure_future")]
        if not made:
            continue
        for t in tasks:
            if sum(1 for _, x in made if x is t) > 1:
                chk.violation("started-twice", t.name, where, "connect() starts the same task twice")
        closes = [i for i, e in enumerate(evs) if e.name == "close" and e.fn is not None]
        if closes and closes[0] < made[0][0]:
            chk.ok("connect paths: torn down first")
            continue
        live = [a for a in task_attrs(p) if I.known(p.st, Term("cmp", "is", Term("attr", S, a, None), K(None))) is not True and not none_fact(I, p.st, a)]
        if live:
            chk.violation("leftover-task", "connect", where, f"new tasks are started although {' and '.join(live)} of an earlier connection may still run ({facts_str(p.st)})")
        else:
            chk.ok("connect paths: nothing left over")


def none_fact(I, st, a):
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "is" and attr_is(f.args[1], a) and f.args[2] == K(None):
            return b
        if attr_is(f, a) and b is False:
            return True
    return False


def task_attrs(p):
    return ("network_consumer_task", "network_producer_task")


def writer(chk, I, t, ps, segs):
    where = chk.loc(I, t)
    n = 0
    order = set()
    seen_seg = False
    for node, h, e, k, evs in segs:
        ws = [i for i, ev in enumerate(evs) if ev.name in WRITES]
        if not ws:
            continue
        seen_seg = True
        if len(ws) > 1:
            chk.violation("burst", t.name, f"{t.module.path}:{evs[ws[1]].line()} ({t.qual})", "one iteration writes more than one frame without going back for the next")
        if k == "break":
            continue
        sl = [i for i, ev in enumerate(evs) if ev.name == "asyncio.sleep" and paced(I, e, ev.arg(0, "delay"))]
        if not sl:
            chk.violation("unpaced", t.name, f"{t.module.path}:{evs[ws[0]].line()} ({t.qual})", f"an iteration writes a frame and loops without sleeping at least tx_message_wait ({facts_str(e)})")
        else:
            order.add(sl[0] < ws[0])
            chk.ok("writing iterations paced", facts_str(e))
            n += 1
    if len(order) > 1:
        chk.violation("unpaced", t.name, where, "the pause comes before the write on some paths and after it on others, so two frames can leave back to back")
    if not seen_seg and not chk.findings:
        chk.violation("no-loop", t.name, where, "the writing task has no loop iteration that writes a frame")
    for st, evs in [(p.st, events(p.st.trace)) for p in ps] + [(e, s) for _, _, e, _, s in segs]:
        for i, ev in enumerate(evs):
            if ev.name in WRITES:
                one_write(chk, I, t, st, evs[:i], ev)


def one_write(chk, I, t, st, before, ev):
    where = f"{t.module.path}:{ev.line()} ({t.qual})"
    v = ev.arg(0, "data")
    src = v.args[0] if v is not None and v.op == "idx" else None
    while src is not None and src.op in ("await",):
        src = src.args[0]
    ok = src is not None and v.args[1] == K(0) and any(g.name in ("get", "get_nowait") and g.path() == "self.tx_queue" and (g.res == src or src == g.res) for g in before)
    if not ok:
        chk.violation("foreign-bytes", t.name, where, f"bytes written are not the frame just taken from the transmit queue: {show(v)}")
        return
    dup = [w for w in before if w.name in WRITES and w.arg(0, "data") == v]
    if dup:
        chk.violation("foreign-bytes", t.name, where, "the same frame is written twice")
    fut = Term("idx", src, K(2))
    none = I.known(st, Term("cmp", "is", fut, K(None)))
    if none is True or I.known(st, fut) is False:
        chk.ok("writes of unresolved frames")
        return
    asked = None
    for i, w in enumerate(before):
        if w.name == "done" and w.base == fut and I.known(st, w.res) is False:
            asked = i
    if asked is None:
        chk.violation("resolved-frame", t.name, where, f"a frame is written without knowing that its response future is still pending ({facts_str(st)})")
        return
    stale = [w for w in before[asked:] if w.name in SUSPEND]
    if stale:
        chk.violation("resolved-frame", t.name, where, f"the task suspends in {stale[0].name}() between checking the response future and writing the frame, so the answer may have arrived meanwhile")
        return
    chk.ok("writes of unresolved frames")


def paced(I, st, t):
    """Is this delay at least self.tx_message_wait?"""
    if t is None:
        return False
    if attr_is(t, "tx_message_wait"):
        return True
    if t.op == "bin" and t.args[0] == "+":
        a, b = t.args[1], t.args[2]
        return (paced(I, st, a) and nonneg(I, st, b)) or (paced(I, st, b) and nonneg(I, st, a))
    if t.op == "lin":
        return False
    n, args = pure_call(t)
    if n == "max":
        return any(paced(I, st, a) for a in args)
    if n == "random.uniform" and len(args) == 2:
        return all(paced(I, st, a) for a in args)
    return False


def nonneg(I, st, t):
    if is_k(t):
        return isinstance(kval(t), (int, float)) and kval(t) >= 0
    if attr_is(t, "tx_jitter") or attr_is(t, "tx_message_wait"):
        return True  # configured delays are taken to be non-negative
    n, args = pure_call(t)
    if n in ("abs", "random.random"):
        return True
    if n in ("random.uniform", "min") and args:
        return all(nonneg(I, st, a) for a in args)
    if n == "max":
        return any(nonneg(I, st, a) for a in args)
    if t.op == "bin" and t.args[0] in ("+", "*", "/"):
        return nonneg(I, st, t.args[1]) and nonneg(I, st, t.args[2])
    lo = I.iv(st, t)[0]
    return lo is not None and lo >= 0


def pure_call(t):
    if t.op == "call":
        f = t.args[0]
        if f.op in ("ext", "builtin"):
            n = f.args[0]
            return n, list(t.args[1])
        if f.op in ("attr", "meth") and f.args[0].op in ("mod", "ext"):
            return f"{f.args[0].args[0]}.{f.args[1]}", list(t.args[1])
    if t.op in ("max", "min", "abs"):
        return t.op, [a for a in t.args if isinstance(a, Term)]
    return None, []


def puts(chk, I, t, traces):
    for st, evs in traces:
        for ev in evs:
            if ev.name in ("put", "put_nowait") and ev.path() == "self.tx_queue":
                one_put(chk, I, t, st, ev)


def one_put(chk, I, t, st, ev):
    where = f"{ev.node and t.module.path}:{ev.line()} ({t.qual})"
    v = ev.arg(0, "item")
    if v is None or v.op != "tup" or len(v.args) != 3:
        chk.violation("queue-item", t.name, where, f"what is queued is not a (frame, sent, response) tuple: {show(v) if v is not None else v}")
        return
    frame = v.args[0]
    from sa.events import callee_of

    if frame.op == "call" and callee_of(frame.args[0])[0] == "encode":
        chk.ok("queued frames are encoded PDUs", f"{t.name}:{ev.line()}")
    else:
        chk.violation("queue-item", t.name, where, f"the queued frame is not the output of encode(): {show(frame)}")


def other_sites(chk, I, allowed):
    """No stream write outside the writer task (and what only it runs)."""
    for fn, call in module_calls(I, ("givenergy_modbus.client",)):
        if isinstance(call.func, ast.Attribute) and call.func.attr in ("write", "writelines", "sendall"):
            q = fn.qual if fn else "module"
            if q in allowed:
                chk.ok("stream write call sites")
            else:
                chk.violation("other-writer", q, f"{fn.module.path if fn else ''}:{call.lineno} ({q})", f"bytes are written outside the writer task: {ast.unparse(call)[:80]}")


def senders(chk, I, tasks):
    """Every other function that puts on the transmit queue."""
    done = {t.qual for t in tasks}
    for q, fn in sorted(sites(I, ("givenergy_modbus.client.client",), ("put", "put_nowait")).items()):
        if q in done or fn is None:
            continue
        if fn.name.startswith("<"):
            continue
        pol = ClientPolicy(I, opaque={"_abort_connection"}, watch={"encode", "done"})
        I.policy = pol
        ps = chk.explore(I, fn)
        puts(chk, I, fn, [(p.st, events(p.st.trace)) for p in ps] + [(e, segment(h, e)) for _, h, e, _ in pol.ends])


MINIMUMS = [("writing iterations paced", 1), ("writes of unresolved frames", 1), ("queued frames are encoded PDUs", 2), ("stream write call sites", 1), ("connect paths: torn down first", 1)]
