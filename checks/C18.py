"""A capture tees every byte of each direction, through that direction's redactor, and never disturbs the client."""
import ast

from sa.bytestream import Bytes, StreamPolicy, appended, cell_of, cell_value, head_symbols, upper
from sa.check import facts_str
from sa.clientmodel import CLIENT, ClientPolicy, Ev, background_tasks, client_class, events, module_calls, segment
from sa.core import K, NONE, Term, is_k, kval, show, subterms
from sa.lin import canon, form, least, most
from sa.events import attr_path, callee_of, loops

TITLE = "A frame capture is complete, always redacted and never disturbs the client"
RULE = (
    "FrameRedactor.feed() and flush() are explored as transformations of a byte buffer: the bytes returned followed by the bytes kept are, slice for slice, the bytes held before followed by the "
    "chunk, a frame handed to the redacting step is the marker-aligned slice of exactly its declared length, every iteration consumes bytes, at least three bytes that may start a marker are kept "
    "and what is kept is bounded. Every call of the user's sink in the client passes what feed()/flush() of the redactor of that direction returned and cannot let an Exception out; each chunk read "
    "and each frame written while a capture runs is fed exactly once. capture_frames() refuses a second capture, and however its wait ends flushes both redactors to the sink before clearing all three fields."
)
MAXFRAME = 158  # header length of a 60-register response: the largest frame devices send


def check(chk):
    I = chk.interp()
    red = redactor_class(chk, I)
    through = redacting(chk, red)
    reassembly(chk, I, red, through)
    session = capture_session(chk, I, red)
    taps(chk, I, red, session)


def redactor_class(chk, I):
    c = I.cls("client.client:FrameRedactor")
    chk.require(c is not None, "client.client:FrameRedactor")
    return c


def redacting(chk, red):
    """The methods that decode a frame to redact it."""
    out = set()
    for n, v in red.attrs.items():
        if isinstance(v, Term) and v.op == "fn" and any(isinstance(x, ast.Attribute) and x.attr == "decode_bytes" for x in ast.walk(v.args[0].node)):
            out.add(n)
    chk.require(out, "the FrameRedactor method that decodes a frame")
    return out - {"feed", "flush"}


# ---------------------------------------------------------------- reassembly
def reassembly(chk, I, red, through):
    S = Term("param", "self")
    I.types[S] = ("cls", red)
    init = I.method(red, "__init__")
    bufs = set()
    I.policy = StreamPolicy(I, CLIENT, opaque=through)
    for p in chk.explore(I, init, {"self": S}):
        for k, o in p.st.h.items():
            if k == S and isinstance(o.data, dict):
                bufs |= {f for f, v in o.data.items() if v == K(b"") or v.op == "call" and callee_of(v.args[0])[0] == "bytearray"}
    chk.require(len(bufs) == 1, "the FrameRedactor's byte buffer (one attribute that starts empty)")
    buf = bufs.pop()
    old = Term("attr", S, buf, 0)
    feed, flush = I.method(red, "feed"), I.method(red, "flush")
    chk.require(feed is not None and flush is not None, "FrameRedactor.feed and flush")
    chunk = Term("param", feed.node.args.args[1].arg)
    # flush
    I.policy = StreamPolicy(I, CLIENT, opaque=through)
    for p in chk.explore(I, flush, {"self": S}):
        w = chk.loc(I, flush)
        now = buffer_of(I, p.st, S, buf)
        if p.kind != "return":
            chk.violation("flush-lost", "flush", w, f"flush() raises {show(p.val)}")
            continue
        B = Bytes(I, p.st)
        if same(B.norm(p.val), [old]) and now is not None and not B.norm(now) or I.known(p.st, old) is False and not B.norm(p.val):
            chk.ok("flush: everything held is returned and dropped")
        else:
            chk.violation("flush-lost", "flush", w, f"flush() returns {show(p.val)} and keeps {show(now)}, not the bytes held and nothing")
    pol = StreamPolicy(I, CLIENT, opaque=through)
    I.policy = pol
    paths = chk.explore(I, feed, {"self": S})
    w = chk.loc(I, feed)
    order = None
    for p in paths:
        if p.kind != "return":
            chk.violation("bytes-lost", "feed", w, f"feed() raises {show(p.val)} ({facts_str(p.st)})")
            continue
        now = buffer_of(I, p.st, S, buf)
        B = Bytes(I, p.st, through, appended(tail_events(pol, p)))
        got = B.norm(B.split(p.val) + B.split(now))
        got = drop_empty(I, p.st, got)
        if initial(B, got, old, chunk):
            chk.ok("paths of feed() without a loop")
            continue
        o = [x for x in got if x.op in ("havoc", "acc")]
        if o != got or not got:
            chk.violation("bytes-lost", "feed", w, f"what feed() returns and keeps is {' + '.join(map(show, got)) or 'nothing'}, not what it held and was given, in order ({facts_str(p.st)})")
            continue
        if order is None or len(got) > len(order):
            order = got
    full = order
    for p in paths:
        if p.kind == "return" and full:
            B = Bytes(I, p.st, through, appended(tail_events(pol, p)))
            got = drop_empty(I, p.st, B.norm(B.split(p.val) + B.split(buffer_of(I, p.st, S, buf))))
            if [x for x in full if x not in got and x.op == "havoc" and I.known(p.st, x) is not False]:
                chk.violation("bytes-lost", "feed", w, f"feed() ends with {' + '.join(map(show, got))} where {' + '.join(map(show, full))} was held ({facts_str(p.st)})")
            else:
                chk.ok("paths of feed(): all bytes accounted for")
    if not full:
        chk.require(False, "the loop over the buffered bytes in FrameRedactor.feed")
    rest = full[-1]
    for node, st in pol.enters:
        head = next((h for n, h, _, _ in pol.ends + pol.outs if n is node and rest in head_symbols(h)), None)
        if head is None:
            continue
        B = Bytes(I, st, through)
        got = B.norm([x for s in full for x in B.split(value(I, head, st, s))])
        if initial(B, got, old, chunk):
            chk.ok("loop entries: the chunk follows what was held")
        else:
            chk.violation("bytes-lost", "feed", w, f"the loop starts from {' + '.join(map(show, got))}, not from the bytes held followed by the chunk")
    for node, h, e, k in pol.ends + pol.outs:
        if rest not in head_symbols(h):
            continue
        iteration(chk, I, feed, node, h, e, k, full, rest, through)


def tail_events(pol, p):
    """Appends made on the path outside the recorded iterations are part of its last iteration."""
    return events(p.st.trace)


def value(I, head, st, sym):
    if sym.op == "acc":
        return Term("ref", sym.args[0])
    c = cell_of(head, sym)
    return cell_value(I, st, c) if c else sym


def buffer_of(I, st, S, buf):
    for _, v in I.load_attr(S, buf, st, None):
        return v
    return None


def drop_empty(I, st, ps):
    return [x for x in ps if I.known(st, x) is not False]


def same(a, b):
    return list(a) == list(b)


def initial(B, got, old, chunk):
    return same([x for x in got if x.op != "acc"], [old, chunk]) and all(x.op != "acc" or empty_list(B, x) for x in got)


def empty_list(B, x):
    o = B.I.hget(B.st, Term("ref", x.args[0]))
    return o.kind == "list" and o.exact and not o.data


def iteration(chk, I, fn, node, h, e, k, full, rest, through):
    w = f"{fn.module.path}:{node.lineno} ({fn.cls.name})"
    evs = segment(h, e)
    B = Bytes(I, e, through, appended(evs))
    vals = [value(I, h, e, s) for s in full]
    got = drop_empty(I, e, B.norm([x for v in vals for x in B.split(v)]))
    want = drop_empty(I, e, full)
    if not same(got, want):
        chk.violation("bytes-lost", "feed", w, f"one iteration turns {' + '.join(map(show, want))} into {' + '.join(map(show, got))}: bytes are lost, repeated or reordered ({facts_str(e)})")
        return
    chk.ok("iterations: slices partition the buffer", facts_str(e))
    now = vals[-1]
    frames = [(x, x.args[1][0]) for v in vals for x in pieces(B, v) if x.op == "call" and callee_of(x.args[0])[0] in through]
    for _, fr in frames:
        whole_frame(chk, I, e, fr, w)
    if k in ("next", "continue"):
        if not progress(I, e, now, rest):
            chk.violation("no-progress", "feed", w, f"an iteration goes round without consuming a byte, so feed() never returns ({facts_str(e)})")
        else:
            chk.ok("iterations: bytes consumed")
    else:
        u = upper(I, e, now)
        if u is None or u > 600:
            chk.violation("unbounded", "feed", w, f"feed() stops while holding an unbounded number of bytes: {show(now)} ({facts_str(e)})")
        else:
            chk.ok("what is kept is bounded")
    if not frames:
        emitted(chk, I, e, now, rest, w)


def pieces(B, v):
    if v.op == "ref":
        return [a for a in B.lists.get(v.args[0], [])]
    out, stack = [], [v]
    while stack:
        x = stack.pop()
        if x.op == "bin" and x.args[0] == "+":
            stack += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def start_of(x):
    """(buffer, offset terms) a slice is cut from."""
    offs = []
    while x.op == "slice" and x.args[2] == NONE:
        offs.append(x.args[1])
        x = x.args[0]
    return x, offs


def whole_frame(chk, I, st, fr, w):
    """x[:6 + length field of x], x starting with the marker."""
    if fr.op != "slice" or fr.args[1] not in (NONE, K(0)):
        chk.violation("frame-slice", "feed", w, f"the redacting step is not given the start of the buffer: {show(fr)}")
        return
    x, n = fr.args[0], fr.args[2]
    want = [t for t in subterms(n) if is_length(t, x)]
    if not want or I.iv(st, Term("bin", "-", n, want[0])) != (6, 6) and linear(n, want[0]) != 6:
        chk.violation("frame-slice", "feed", w, f"the redacting step is given {show(fr)}, not the declared length plus the six header bytes")
        return
    if aligned(I, st, x) is not True:
        chk.violation("frame-slice", "feed", w, f"the redacting step is given bytes not known to start with the frame marker ({facts_str(st)})")
        return
    chk.ok("frames handed to the redacting step are whole")


def linear(n, x):
    """c when n is x + c."""
    a, c = form(Term("bin", "-", n, x))
    return c if not a else None


def is_length(t, x):
    return canon(t) == Term("field", x, 4, 2)


def marker_of(I, st):
    """Facts about where the marker is: (find call, buffer searched)."""
    for f in st.facts:
        for t in subterms(f):
            if t.op == "call":
                n, base, _ = callee_of(t.args[0])
                if n in ("find", "index") and base is not None and t.args[1] and is_marker(t.args[1][0]) and len(t.args[1]) == 1:
                    yield t, base


def is_marker(t):
    return is_k(t) and kval(t) == b"YY\x00\x01"


def aligned(I, st, x):
    """Is this known to start with the marker?"""
    for t, base in marker_of(I, st):
        if base == x:
            if least(I, st, t) == 0 == most(I, st, t):
                return True
        if x.op == "slice" and x.args[0] == base and x.args[1] == t and x.args[2] == NONE and I.known(st, Term("cmp", "lt", t, K(0))) is False:
            return True
    for f, b in st.facts.items():
        if b and f.op == "call":
            n, base, _ = callee_of(f.args[0])
            if n == "startswith" and base == x and f.args[1] and is_marker(f.args[1][0]):
                return True
        if b and f.op == "cmp" and f.args[0] == "eq" and f.args[1] == Term("slice", x, NONE, K(4), NONE) and is_marker(f.args[2]):
            return True
    return None


def absent(I, st, x):
    """Is this known not to contain the marker?"""
    for t, base in marker_of(I, st):
        if base == x:
            hi = most(I, st, t)
            if hi is not None and hi < 0:
                return True
    for f, b in st.facts.items():
        if not b and f.op == "cmp" and f.args[0] == "in" and f.args[2] == x and is_marker(f.args[1]):
            return True
    return False


def progress(I, st, now, rest):
    if is_k(now):
        return True
    x, offs = start_of(now)
    if x != rest or not offs:
        return False
    return any((least(I, st, o) or 0) > 0 for o in offs)


def emitted(chk, I, st, now, rest, w):
    """Bytes let through without redaction can not be (part of) a frame."""
    if now == rest:
        return
    x, offs = start_of(now)
    if x != rest or len(offs) != 1:
        chk.ok("garbage let through")
        return
    k = offs[0]
    if absent(I, st, rest):
        c = -kval(k) if is_k(k) and isinstance(kval(k), int) else None
        keep = c if c is not None and c > 0 else None
        if keep is None:
            # len(x) - c
            keep = kept(k, rest)
        if keep is None or keep < 3:
            chk.violation("split-marker", "feed", w, f"without a marker in the buffer only {show(now)} is kept: a marker split over two chunks is missed and its frame leaves unredacted ({facts_str(st)})")
        else:
            chk.ok("split markers kept together")
        return
    for t, base in marker_of(I, st):
        if base == rest and k == t:
            chk.ok("garbage up to the first marker")
            return
    if aligned(I, st, rest):
        lens = [t for f in st.facts for t in subterms(f) if is_length(t, rest)]
        big = any((least(I, st, t) or 0) > MAXFRAME for t in lens)
        if not big:
            chk.violation("frame-passed", "feed", w, f"bytes starting with a marker are let through although they may be a frame a device sends ({facts_str(st)})")
        elif not is_k(k) or not isinstance(kval(k), int) or kval(k) > 4:
            chk.violation("frame-passed", "feed", w, f"skipping a false marker lets {show(k)} bytes through, which may hold the start of a real frame")
        else:
            chk.ok("false markers skipped")
        return
    chk.violation("frame-passed", "feed", w, f"bytes are let through that are not known to come before a marker ({facts_str(st)})")


def kept(k, x):
    """c when k is len(x) - c."""
    a, c = form(k)
    return -c if a == {Term("len", x): 1} else None


# ------------------------------------------------------------------- session
class TapPolicy(ClientPolicy):
    """Calls of the user's sink are effects that may raise."""

    def __init__(self, I, sinks, **kw):
        super().__init__(I, **kw)
        self.sinks = set(sinks)

    def on_call(self, interp, callee, args, kwargs, st, node):
        if self.is_sink(callee):
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), interp.uid(node))
            st = st.emit(Ev("SINK", callee, args, kwargs, node, loops(interp.ctx), None, res))
            interp.raise_(st.copy(), interp.exc_term("Exception", exact=False, note="sink"), node)
            return [(st, res)]
        name, base, _ = callee_of(callee)
        if name in ("feed", "flush") and base is not None and base.op == "ref":
            res = Term("call", callee, tuple(args), (), interp.uid(node))
            return [(st.emit(Ev(name, base, args, kwargs, node, loops(interp.ctx), None, res)), res)]
        return super().on_call(interp, callee, args, kwargs, st, node)

    def is_sink(self, t):
        return t in self.sinks or t.op == "attr" and t.args[1] in self.sinks

    def inline(self, fn, interp, st):
        return fn.module.name == CLIENT and fn.name not in self.opaque and (fn.cls is None or fn.cls.name in ("Client", "FrameRedactor"))

    def on_store_attr(self, interp, base, name, val, st, node):
        if base.op == "param":
            return st.emit(Ev("store:" + name, base, [val], {}, node, loops(interp.ctx)))
        return st


class Session:
    def __init__(self):
        self.sink = None
        self.directions = {}  # attribute -> direction
        self.functions = set()


def capture_session(chk, I, red):
    fn = I.func("client.client:Client.capture_frames")
    chk.require(fn is not None, "Client.capture_frames")
    S = Session()
    me = Term("param", "self")
    sinkp = next((Term("param", a.arg) for a in fn.node.args.args if a.arg != "self" and "Callable" in ast.unparse(a.annotation or ast.Constant(0))), Term("param", "sink"))
    where = chk.loc(I, fn)

    def run(raises, sinks):
        pol = TapPolicy(I, sinks, opaque={"feed", "flush", "_process"}, raises=raises)
        I.policy = pol
        I.stats["functions"] = set()
        ps = chk.explore(I, fn)
        S.functions |= set(I.stats["functions"]) | {fn.qual}
        return ps

    for p in run(None, {sinkp}):
        for e in events(p.st.trace):
            if e.name.startswith("store:") and e.base == me:
                v = e.args[0]
                if v == sinkp:
                    S.sink = e.name[6:]
                elif v.op == "ref" and I.hget(p.st, v).cls is red:
                    d = [x for x in I.hget(p.st, v).data.values() if isinstance(x, Term) and is_k(x) and kval(x) in ("rx", "tx")]
                    chk.require(len(d) == 1, "the direction of a FrameRedactor")
                    S.directions[e.name[6:]] = kval(d[0])
    chk.require(S.sink is not None, "where capture_frames keeps the sink")
    if sorted(S.directions.values()) != ["rx", "tx"]:
        chk.violation("redactors", fn.name, where, f"a capture sets up the redactors {S.directions}, not one of each direction")
        return S
    fields = [S.sink, *sorted(S.directions)]
    busy0 = Term("cmp", "is", Term("attr", me, S.sink, 0), NONE)

    def waits(interp, ev, st):
        return (interp.exc_term("asyncio.CancelledError", exact=True, note="wait"),) if ev.name in ("asyncio.sleep", "asyncio.wait_for", "asyncio.wait") else ()

    for p in run(waits, {sinkp, S.sink}):
        evs = events(p.st.trace)
        stores = [(i, e.name[6:], e.args[0]) for i, e in enumerate(evs) if e.name.startswith("store:") and e.base == me and e.name[6:] in fields]
        busy = busy_fact(I, p.st, me, S.sink)
        if busy is not False:
            if busy is True and (p.kind != "raise" or I.exc_sub(p.val.args[0], Term("ext", "RuntimeError")) is not True or stores):
                chk.violation("second-capture", fn.name, where, f"a second capture is not refused with RuntimeError before it touches the first ({facts_str(p.st)})")
            elif busy is None:
                chk.violation("second-capture", fn.name, where, f"a capture starts or ends without asking whether one is running ({facts_str(p.st)})")
            else:
                chk.ok("second captures refused")
            continue
        waited = [i for i, e in enumerate(evs) if e.name in ("asyncio.sleep", "asyncio.wait_for", "asyncio.wait")]
        if p.kind == "raise" and not (p.val.op == "exc" and p.val.args[3:] and "wait" in str(p.val.args)):
            chk.violation("capture-raises", fn.name, where, f"capture_frames() ends with {show(p.val)}")
            continue
        if not waited:
            chk.violation("no-wait", fn.name, where, "a capture ends without waiting for its duration")
            continue
        d = evs[waited[0]].arg(0, "delay")
        if d is None or d != Term("param", "duration"):
            chk.violation("no-wait", fn.name, where, f"a capture waits for {show(d)} instead of its duration")
        cancelled = any(e.name.startswith("raises:") for e in evs)
        if cancelled and p.kind != "raise":
            chk.violation("swallowed", fn.name, where, "cancelling a capture is swallowed")
        # set up before the wait
        for f in fields:
            before = [v for i, n, v in stores if n == f and i < waited[0]]
            if not before or before[-1] == NONE:
                chk.violation("setup", fn.name, where, f"{f} is not set before the capture waits")
        # torn down after it
        for f in fields:
            mine = [(i, v) for i, n, v in stores if n == f]
            if not mine or mine[-1][1] != NONE or mine[-1][0] < waited[-1]:
                chk.violation("leftover", fn.name, where, f"a capture {'that is cancelled ' if cancelled else ''}ends with {f} still set: the next capture is refused or fed to an old sink")
            else:
                chk.ok("capture fields cleared", f"{f} cancelled={cancelled}")
        for f, dr in S.directions.items():
            fl = [(i, e) for i, e in enumerate(evs) if e.name == "flush" and i > waited[-1] and redactor_dir(I, p.st, e.base, S) == dr]
            gone = gone_fact(I, p.st, f)
            if not fl:
                if gone:
                    chk.ok("redactor already gone")
                else:
                    chk.violation("tail-lost", fn.name, where, f"the {dr} redactor is not flushed when the capture ends{' by cancellation' if cancelled else ''}: its last bytes are lost")
                continue
            for i, e in fl:
                off = I.known(p.st, e.res) is False or I.known(p.st, Term("cmp", "is", sinkp, NONE)) is True
                out = [x for x in evs[i:] if x.name == "SINK" and len(x.args) >= 2 and x.args[1] == e.res]
                if len(out) == 1 and out[0].args[0] == K(dr):
                    chk.ok("flushed tails emitted")
                elif not out and off:
                    chk.ok("flushed tails: nothing to emit")
                else:
                    chk.violation("tail-lost", fn.name, where, f"the flushed {dr} tail is not handed to the sink exactly once as {dr} ({facts_str(p.st)})")
        sink_calls(chk, I, p.st, evs, S, fn)
    # nobody else touches the session
    for mname, m in I.prog.modules.items():
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = I.fn_by_node.get(id(node))
                if f is None or f.qual in S.functions:
                    continue
                for n in ast.walk(node):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr in fields and isinstance(x.ctx, (ast.Store, ast.Del)) and not (f.name == "__init__" and isinstance(getattr(n, "value", None), ast.Constant) and n.value.value is None):
                                chk.violation("foreign-store", f.qual, f"{m.path}:{n.lineno} ({f.qual})", f"{x.attr} is changed outside capture_frames(), so a running capture is cut short or left without a redactor")
    return S


def busy_fact(I, st, me, sink):
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE and f.args[1].op == "attr" and f.args[1].args[:2] == (me, sink):
            return not b
    for f, b in st.facts.items():
        if f.op == "attr" and f.args[:2] == (me, sink):
            return b
    return None


def gone_fact(I, st, name):
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE and f.args[1].op == "attr" and f.args[1].args[1] == name and b:
            return True
        if f.op == "attr" and f.args[1] == name and b is False:
            return True
    return False


def redactor_dir(I, st, base, S):
    if base is None:
        return None
    if base.op == "attr":
        return S.directions.get(base.args[1])
    if base.op == "ref":
        d = [x for x in I.hget(st, base).data.values() if isinstance(x, Term) and is_k(x) and kval(x) in ("rx", "tx")]
        return kval(d[0]) if len(d) == 1 else None
    return None


def sink_calls(chk, I, st, evs, S, fn):
    """Whatever reaches the sink came out of the redactor of its direction."""
    for i, e in enumerate(evs):
        if e.name != "SINK":
            continue
        w = f"{fn.module.path}:{e.line()}"
        src = [x for x in evs[:i] if x.name in ("feed", "flush") and len(e.args) >= 2 and x.res == e.args[1]]
        if not src:
            chk.violation("unredacted", fn.name, w, f"the sink is handed {show(e.args[1]) if len(e.args) > 1 else 'nothing'}, which no redactor returned")
            continue
        d = redactor_dir(I, st, src[-1].base, S)
        if d is None or e.args[0] != K(d):
            chk.violation("wrong-direction", fn.name, w, f"what the {d} redactor returned is handed to the sink as {show(e.args[0])}")
            continue
        chk.ok("sink calls carry redacted bytes", f"{fn.name}:{e.line()} {d}")


# ---------------------------------------------------------------------- taps
def taps(chk, I, red, S):
    if len(S.directions) < 2:
        return
    _, _, tasks = background_tasks(chk, I)
    seen = set()
    for t in tasks:
        pol = TapPolicy(I, {S.sink}, opaque={"_abort_connection", "_note_eof_drop", "feed", "flush", "_process"}, watch={"decode", "encode"}, raises=lambda I, ev, st: ("OSError",) if ev.name in ("drain", "asyncio.wait_for") else ())
        I.policy = pol
        ps = chk.explore(I, t)
        where = chk.loc(I, t)
        for p in ps:
            if p.kind == "raise" and "sink" in str(p.val.args):
                chk.violation("sink-raises", t.name, where, f"an exception raised by the user's sink ends {t.name} ({facts_str(p.st)})")
        rows = [(p.st, events(p.st.trace)) for p in ps] + [(e, segment(h, e)) for _, h, e, k in pol.ends + pol.outs]
        for st, evs in rows:
            sink_calls(chk, I, st, evs, S, t)
            for i, e in enumerate(evs):
                if e.name == "decode":
                    tap(chk, I, t, st, evs, i, e, e.arg(0, "data"), "rx", S)
                    seen.add("rx")
                elif e.name == "write":
                    tap(chk, I, t, st, evs, i, e, e.arg(0, "data"), "tx", S)
                    seen.add("tx")
    for d in ("rx", "tx"):
        chk.require(d in seen, f"the {d} traffic of the background tasks")
    for fn, call in module_calls(I, ("givenergy_modbus",)):
        if isinstance(call.func, ast.Attribute) and call.func.attr == S.sink:
            chk.ok("direct sink call sites")


def tap(chk, I, t, st, evs, i, e, data, d, S):
    w = f"{t.module.path}:{e.line()} ({t.qual})"
    feeds = [(j, x) for j, x in enumerate(evs) if x.name == "feed" and x.arg(0, "chunk") == data]
    attr = next(a for a, v in S.directions.items() if v == d)
    if any(redactor_dir(I, st, x.base, S) != d for _, x in feeds):
        chk.violation("wrong-direction", t.name, w, f"{d} bytes are fed to the other direction's redactor")
        return
    if len(feeds) > 1:
        chk.violation("fed-twice", t.name, w, f"the same {d} bytes are fed to the redactor twice")
        return
    if not feeds:
        if gone_fact(I, st, S.sink) or gone_fact(I, st, attr) or I.known(st, data) is False or empty_len(I, st, data):
            chk.ok("bytes outside a capture")
        else:
            later = i == len(evs) - 1 or not any(x.name in ("asyncio.wait_for", "asyncio.sleep", "drain", "SINK", "decode", "read") for x in evs[i + 1 :])
            if later and d == "tx" and any(x.name.startswith("raises:write") for x in evs):
                return
            chk.violation("missed", t.name, w, f"{d} bytes are handled without being fed to the capture's redactor on a path where a capture may run ({facts_str(st)})")
        return
    j, f = feeds[0]
    outs = [x for x in evs[j:] if x.name == "SINK" and len(x.args) >= 2 and x.args[1] == f.res]
    if len(outs) == 1:
        chk.ok("captured bytes handed on", f"{t.name} {d}")
    elif not outs and (I.known(st, f.res) is False or gone_fact(I, st, S.sink)):
        chk.ok("captured bytes held by the redactor")
    else:
        chk.violation("missed", t.name, w, f"what the {d} redactor returns reaches the sink {len(outs)} times ({facts_str(st)})")


def empty_len(I, st, t):
    return I.iv(st, Term("call", Term("ext", "len"), (t,), (), None))[1] == 0


MINIMUMS = [
    ("iterations: slices partition the buffer", 3),
    ("frames handed to the redacting step are whole", 1),
    ("flush: everything held is returned and dropped", 1),
    ("second captures refused", 1),
    ("capture fields cleared", 3),
    ("flushed tails emitted", 2),
    ("captured bytes handed on", 2),
    ("sink calls carry redacted bytes", 3),
]
