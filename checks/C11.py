"""Receiving: every complete frame in the byte stream is decoded once, whatever its surroundings and cuts."""
from checks.C18 import absent, aligned, is_length, kept, linear, marker_of, progress, start_of
from sa.bytestream import Bytes, StreamPolicy, explore_gen, head_symbols, upper
from sa.check import facts_str
from sa.clientmodel import Ev, events, segment
from sa.lin import canon, least, length, members, most
from sa.core import K, NONE, AnalysisError, Term, is_k, kval, show, subterms

TITLE = "Every complete frame received is decoded and delivered exactly once"
RULE = (
    "Framer.decode() is explored as a loop over a byte buffer from an arbitrary buffer and chunk. The loop starts from the bytes held followed by the chunk; each turn that goes round consumes bytes; a decoded frame is the marker-aligned "
    "slice of exactly its declared length, is removed from the buffer before it is delivered, and is delivered once as the decoded message or as a protocol exception, no exception escaping; bytes are dropped only before the "
    "first marker, up to a next marker less than 18 bytes on, or (at most the marker itself) when length, unit or function of the header are not those of any GivEnergy frame; what remains is shorter than the shortest message, an incomplete frame, or at most "
    "a possible marker start, so it is bounded."
)
MODULE = "givenergy_modbus.framer"
SHORTEST = 18
LONGEST = 300  # longest length field taken for a frame


class FramerPolicy(StreamPolicy):
    def __init__(self, I, buf=None):
        super().__init__(I, MODULE, opaque=("decode_bytes",), stores=(buf,) if buf else ())

    def raised_by(self, interp, ev, st):
        return ("Exception",) if ev.name == "decode_bytes" else ()


def check(chk):
    I = chk.interp()
    ci = I.cls("framer:Framer")
    chk.require(ci is not None, "framer:Framer")
    fn = I.method(ci, "decode")
    chk.require(fn is not None and fn.is_gen, "Framer.decode (a generator)")
    S = Term("param", "self")
    I.types[S] = ("cls", ci)
    buf = buffer_attr(chk, I, ci, S)
    old = Term("attr", S, buf, 0)
    data = Term("param", fn.node.args.args[1].arg)
    pol = FramerPolicy(I, buf)
    I.policy = pol
    paths = explore_gen(chk, I, fn, {"self": S})
    w = chk.loc(I, fn)
    heads = {s for _, h, _, _ in pol.ends + pol.outs for s in head_symbols(h)}
    rest = None
    for p in paths:
        if p.kind != "return":
            chk.violation("escape", "decode", w, f"decode() lets {show(p.val)} out, ending the receive loop ({facts_str(p.st)})")
            continue
        ends = {x for v in [value_of(I, p.st, S, buf)] for x in subterms(v) if x in heads}
        rest = next(iter(ends), rest)
    if rest is None:
        if not chk.findings:
            chk.require(False, "the loop over the buffered bytes in Framer.decode")
        return
    for node, st in pol.enters:
        got = Bytes(I, st).norm(value_of(I, st, S, buf))
        if list(got) == [old, data]:
            chk.ok("loop entries: held bytes then the chunk")
        else:
            chk.violation("bytes-lost", "decode", w, f"scanning starts from {' + '.join(map(show, got))}, not from the bytes held followed by the bytes received")
    for node, h, e, k in pol.ends:
        if rest in head_symbols(h):
            turn(chk, I, fn, node, h, e, k, rest, S, buf)
    frames = 0
    for node, h, e, k in pol.ends + pol.outs:
        if rest in head_symbols(h):
            frames += delivery(chk, I, fn, node, h, e, k, rest, S, buf)
    for p in paths:
        if p.kind == "return":
            leftover(chk, I, p, value_of(I, p.st, S, buf), rest, w, old, data)
    chk.count("turns that deliver a frame", frames)
    for name, want in (("ClientFramer", "ClientIncomingMessage"), ("ServerFramer", "ServerIncomingMessage")):
        decoder(chk, I, name, want)


def decoder(chk, I, name, want):
    ci = I.cls(f"framer:{name}")
    chk.require(ci is not None, f"framer:{name}")
    cls = I.cls(f"pdu.base:{want}")
    chk.require(cls is not None, f"pdu.base:{want}")
    st0 = None
    I.policy = StreamPolicy(I, MODULE)
    got = set()
    init = I.method(ci, "__init__")
    me = Term("param", "self")
    I.types[me] = ("cls", ci)
    if init is not None:
        for p in chk.explore(I, init, {"self": me}):
            if p.kind == "return":
                got |= {v for _, v in I.load_attr(me, "pdu_class", p.st, None)}
    else:
        got = {I.class_attr(ci, "pdu_class", st0)}
    if got == {Term("cls", cls)}:
        chk.ok("decoders of each side")
    elif any(v.op == "attr" for v in got):
        v = I.class_attr(ci, "pdu_class", I.gstate)
        if v == Term("cls", cls):
            chk.ok("decoders of each side")
        else:
            chk.violation("decoder", name, f"{ci.module.path}:{ci.node.lineno} ({name})", f"{name} decodes with {show(v)}")
    else:
        chk.violation("decoder", name, f"{ci.module.path}:{ci.node.lineno} ({name})", f"{name} decodes with {', '.join(map(show, got))}, not {want}")


def buffer_attr(chk, I, ci, S):
    init = I.method(ci, "__init__")
    bufs = set()
    I.policy = StreamPolicy(I, MODULE)
    if init is not None:
        for p in chk.explore(I, init, {"self": S}):
            for k, o in p.st.h.items():
                if k == S and isinstance(o.data, dict):
                    bufs |= {f for f, v in o.data.items() if v == K(b"") or v.op == "call" and "bytearray" in show(v.args[0])}
    chk.require(len(bufs) == 1, "the Framer's byte buffer (one attribute that starts empty)")
    return bufs.pop()


def value_of(I, st, S, buf):
    return I.load_attr(S, buf, st, None)[0][1]


def decoded(evs):
    return [e for e in evs if e.name == "decode_bytes"]


def yields(evs):
    return [e for e in evs if e.name == "yield"]


def turn(chk, I, fn, node, h, e, k, rest, S, buf):
    """A turn that goes round consumed bytes, and only bytes it may."""
    w = f"{fn.module.path}:{node.lineno} ({fn.qual.split(':')[-1]})"
    now = value_of(I, e, S, buf)
    if not progress(I, e, now, rest):
        chk.violation("no-progress", "decode", w, f"a turn goes round with {show(now)} left of the buffer: receiving hangs on such input ({facts_str(e)})")
        return
    chk.ok("turns consume bytes")
    evs = segment(h, e)
    if not decoded(evs):
        dropped(chk, I, e, now, rest, w)


def dropped(chk, I, st, now, rest, w):
    """Bytes dropped without being decoded cannot be a frame."""
    x, offs = start_of(now)
    if x != rest or len(offs) != 1:
        chk.violation("frame-dropped", "decode", w, f"{show(rest)} becomes {show(now)} without a frame having been decoded ({facts_str(st)})")
        return
    k = offs[0]
    for t, base in marker_of(I, st):
        if base == rest and t == k and (least(I, st, t) or 0) >= 0:
            chk.ok("drops: bytes before the first marker")
            return
    if absent(I, st, rest):
        return tail(chk, I, st, now, rest, w)
    lo, hi = least(I, st, k), most(I, st, k)
    if is_find_after(k, rest) and lo is not None and hi is not None and 0 < lo and hi < SHORTEST:
        chk.ok("drops: up to a marker less than the shortest message away")
        return
    bad = implausible(I, st, rest)
    if aligned(I, st, rest) is not True:
        chk.violation("frame-dropped", "decode", w, f"{show(k)} bytes are dropped from a buffer not known to start with a marker ({facts_str(st)})")
    elif not bad:
        chk.violation("frame-dropped", "decode", w, f"{show(k)} bytes are dropped from a frame with a plausible header ({facts_str(st)})")
    elif hi is None or hi > 4:
        chk.violation("frame-dropped", "decode", w, f"{show(k)} bytes are dropped after a bad header: the marker of the next frame may be among them ({facts_str(st)})")
    else:
        chk.ok("drops: marker of an implausible header", bad)


def is_find_after(k, rest):
    """rest.find(marker, n) with n > 0."""
    if k.op != "call":
        return False
    from sa.events import callee_of

    n, base, _ = callee_of(k.args[0])
    a = k.args[1]
    if n not in ("find", "index") or not a or not is_k(a[0]) or kval(a[0]) != b"YY\x00\x01":
        return False
    return base == rest and len(a) == 2 and is_k(a[1]) and 0 < kval(a[1]) <= 4


def implausible(I, st, rest):
    """Which header field is known not to be that of a frame."""
    lo = least(I, st, field(rest, 4, 2))
    if lo is not None and lo > LONGEST:
        return f"length field at least {lo}"
    for i, must in ((6, {0, 1}), (7, {1, 2})):
        t = Term("field", rest, i, 1)
        left = {v for v in must if (least(I, st, t) or 0) <= v <= most(I, st, t)}
        for f, b in st.facts.items():
            if f.op != "cmp" or b is not False or f.args[0] not in ("in", "eq"):
                continue
            _, x, y = f.args
            if canon(y) == t:
                x, y = y, x
            if canon(x) == t:
                left -= {kval(y)} if f.args[0] == "eq" and is_k(y) else members(y) or set() if f.args[0] == "in" else set()
        if not left:
            return f"byte {i} not in {sorted(must)}"
    return None


def field(x, at, size):
    return Term("field", x, at, size)


def tail(chk, I, st, now, rest, w):
    x, offs = start_of(now)
    k = offs[0] if len(offs) == 1 else None
    keep = None
    if x == rest and k is not None:
        keep = -kval(k) if is_k(k) and isinstance(kval(k), int) and kval(k) < 0 else kept(k, rest)
    if keep is None and now != rest or keep is not None and keep < 3:
        chk.violation("frame-dropped", "decode", w, f"without a marker in the buffer only {show(now)} is kept: a marker split over two chunks is lost with its frame ({facts_str(st)})")
    else:
        chk.ok("drops: everything but a possible marker start")


def delivery(chk, I, fn, node, h, e, k, rest, S, buf):
    w = f"{fn.module.path}:{node.lineno} ({fn.qual.split(':')[-1]})"
    evs = segment(h, e)
    ds, ys = decoded(evs), yields(evs)
    now = value_of(I, e, S, buf)
    if not ds:
        for y in ys:
            chk.violation("phantom", "decode", w, f"{show(y.args[0])} is delivered although no frame was decoded ({facts_str(e)})")
        return 0
    if len(ds) != 1:
        chk.violation("frame-slice", "decode", w, f"one turn decodes {len(ds)} frames ({facts_str(e)})")
        return 0
    fr = ds[0].args[-1] if ds[0].args else None
    if fr is None or fr.op != "slice" or fr.args[0] != rest or fr.args[1] not in (NONE, K(0)):
        chk.violation("frame-slice", "decode", w, f"the decoder is given {show(fr) if fr is not None else 'nothing'}, not the start of the buffer ({facts_str(e)})")
        return 0
    n = fr.args[2]
    ln = [t for t in subterms(n) if is_length(t, rest)]
    if not ln or linear(n, ln[0]) != 6:
        chk.violation("frame-slice", "decode", w, f"the decoder is given {show(fr)}, not the six header bytes and the declared length")
        return 0
    if aligned(I, e, rest) is not True:
        chk.violation("frame-slice", "decode", w, f"the decoder is given bytes not known to start with the frame marker ({facts_str(e)})")
        return 0
    if not complete(I, e, rest, n):
        chk.violation("frame-slice", "decode", w, f"the decoder is given a frame that may not have arrived completely ({facts_str(e)})")
        return 0
    x, offs = start_of(now)
    if x != rest or offs != [n]:
        chk.violation("frame-slice", "decode", w, f"after a frame of {show(n)} bytes the buffer is {show(now)}: bytes are lost or decoded twice ({facts_str(e)})")
        return 0
    if len(ys) != 1:
        chk.violation("delivery", "decode", w, f"a decoded frame is delivered {len(ys)} times ({facts_str(e)})")
        return 0
    seq = [x.name for x in evs if x.name in ("yield", "store:" + buf)]
    if "yield" in seq and any(s != "yield" for s in seq[seq.index("yield") :]):
        chk.violation("delivery", "decode", w, f"a frame is delivered before it is removed from the buffer, so it is decoded again if the receiver stops there ({facts_str(e)})")
        return 0
    v = ys[0].args[0]
    exc = any(x.name == "raises:decode_bytes" for x in evs)
    base = I.cls("exceptions:ExceptionBase")
    if not exc and v != ds[0].res:
        chk.violation("delivery", "decode", w, f"{show(v)} is delivered instead of the decoded message")
    elif exc and not protocol_exception(I, v, base):
        chk.violation("delivery", "decode", w, f"a frame that fails to decode is delivered as {show(v)}, which the receive loop does not take for a protocol exception")
    else:
        chk.ok("frames delivered once", "exception" if exc else "message")
        return 1
    return 0


def protocol_exception(I, v, base):
    if v.op == "exc":
        c = v.args[0]
        c = c.args[0] if isinstance(c, Term) and c.op == "cls" else c
        return hasattr(c, "is_subclass") and c.is_subclass(base)
    return False


def complete(I, st, rest, n):
    d = least(I, st, Term("bin", "-", length(rest), n))
    return d is not None and d >= 0


def incomplete(I, st, rest):
    """Known: fewer bytes than header plus declared length."""
    d = most(I, st, Term("bin", "-", length(rest), Term("bin", "+", field(rest, 4, 2), K(6))))
    return d is not None and d < 0


def short(I, st, rest):
    """Known: fewer bytes than the shortest message."""
    u = most(I, st, length(rest))
    return u is not None and u < SHORTEST or I.known(st, rest) is False


def leftover(chk, I, p, now, rest, w, old, data):
    st = p.st
    if absent(I, st, rest):
        u = upper(I, st, now)
        if u is None or u > 600:
            chk.violation("unbounded", "decode", w, f"decode() keeps an unbounded number of bytes without a marker: {show(now)} ({facts_str(st)})")
            return
        tail(chk, I, st, now, rest, w)
        return
    if short(I, st, now) or now == NONE:
        chk.ok("left over: less than a message")
        return
    if aligned(I, st, now) is True and incomplete(I, st, now):
        u = upper(I, st, now)
        if u is None or u > 600:
            chk.violation("unbounded", "decode", w, f"decode() waits for a frame of unbounded length ({facts_str(st)})")
        else:
            chk.ok("left over: an incomplete frame")
        return
    if now == rest or list(Bytes(I, st).norm(now)) == [old, data]:
        chk.violation("stuck", "decode", w, f"decode() returns although the buffer may hold a complete frame ({facts_str(st)})")
        return
    # a turn that dropped or decoded something and then left the loop
    x, offs = start_of(now)
    if x == rest and offs:
        chk.violation("stuck", "decode", w, f"decode() returns with {show(now)} unexamined: a complete frame in it waits for more data ({facts_str(st)})")
        return
    raise AnalysisError(f"what decode() leaves in the buffer does not resolve: {show(now)}")


MINIMUMS = [
    ("turns consume bytes", 4),
    ("drops: bytes before the first marker", 1),
    ("drops: marker of an implausible header", 1),
    ("drops: everything but a possible marker start", 1),
    ("frames delivered once", 2),
    ("left over: less than a message", 1),
    ("left over: an incomplete frame", 1),
    ("loop entries: held bytes then the chunk", 1),
    ("decoders of each side", 2),
]
