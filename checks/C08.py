"""Message codec: encoding and decoding are inverse, on the documented layout."""
from sa.check import facts_str
from sa.core import K, NONE, Term, is_k, kval, show
from sa.events import callee_of
from sa.evalterm import Unknown, value
from sa.framemodel import DATA, CodecPolicy, crc_of, is_text, pin, swapped
from sa.interp import H, State, tup
from sa.spec_frames import IN, SERIAL, layouts
from sa.wire import fields

TITLE = "Encoding a message and decoding the frame give the message back"
RULE = (
    "A table of frame layouts (offset, width and meaning of every field, per message class, error flag and register count 0..60) is written down independently of the codec. "
    "decode_bytes() is explored on a frame of each layout whose structural bytes are known and whose data bytes are symbols: it must return that class, each attribute being exactly the field at its "
    "offset. encode() is explored on the message so decoded and on a message built from keyword arguments: the byte string built must be the same fields at the same offsets, with the header's length "
    "equal to the bytes that follow, serials encoded one byte per character, and the last two bytes the swapped Modbus CRC of the bytes from the device address on."
)
ROUNDTRIP = {0, 1, 2, 45, 60}


def frame(l, uid=1):
    p = {}
    pin(p, 0, 2, 0x5959)
    pin(p, 2, 2, 1)
    pin(p, 4, 2, l.length - 6)
    pin(p, 6, 1, uid)
    pin(p, 7, 1, l.fc)
    if l.tfc is not None:
        pin(p, 27, 1, l.tfc | (0x80 if l.error else 0))
    if l.n is not None:
        off = next(o for a, o, _ in l.ints if a == "register_count")
        pin(p, off, 2, l.n)
    return p


def start():
    st = State()
    st.facts = {**st.facts, DATA: True}
    return st


def decode_paths(chk, I, pol, root):
    I.policy = pol
    ci = I.cls(root)
    fn = I.method(ci, "decode_bytes")
    chk.require(fn is not None, f"{root}.decode_bytes")
    return fn, chk.explore(I, fn, {"cls": Term("cls", ci), "data": DATA}, st=start())


def is_lan(I, pol, p):
    """May this frame be a LAN broadcast: nothing known on the path speaks against the seven zero bytes and the comma."""
    o = I.hget(p.st, p.val)
    if o.cls is None or not o.cls.name == "LanConfigBroadcast":
        return False
    ok = all(I.known(p.st, Term("cmp", "eq", pol.field(o_, 1), K(v))) is True or pol.field(o_, 1) == K(v) for o_, v in ((24, 0), (25, 0x2C)))
    zeros = Term("call", Term("ext", "any"), (pol.cut(18, 24),), (), None)
    z = I.known(p.st, zeros)
    each = all(pol.field(i, 1) == K(0) or I.known(p.st, Term("cmp", "eq", pol.field(i, 1), K(0))) is True or I.known(p.st, pol.field(i, 1)) is False for i in range(18, 24))
    whole = any(b is True and f.op == "cmp" and f.args[0] == "eq" and pol.span(f.args[1]) in ((18, 24), (18, 25)) and is_k(f.args[2]) and not any(kval(f.args[2])) for f, b in p.st.facts.items())
    whole2 = any(b is True and f.op == "cmp" and f.args[0] == "eq" and pol.span(f.args[1]) == (18, 26) and f.args[2] == K(b"\0" * 7 + b",") for f, b in p.st.facts.items())
    starts = any(b is True and f.op == "call" and callee_of(f.args[0])[0] == "startswith" and pol.span(callee_of(f.args[0])[1]) is not None and pol.span(callee_of(f.args[0])[1])[0] == 18 and f.args[1] == (K(b"\0" * 7 + b","),) for f, b in p.st.facts.items())
    return whole2 or starts or ok and (z is False or each or whole)


def get(I, p, ref, name):
    r = I.load_attr(ref, name, p.st, None)
    return r[0][1] if len(r) == 1 else None


def same_int(I, st, got, want):
    if got == want:
        return True
    if got is None:
        return False
    if is_k(want) and is_k(got):
        return kval(want) == kval(got)
    if got.op == "bin" and got.args[0] == "&" and got.args[1] == want and is_k(got.args[2]):
        r = I.iv(st, want)
        m = kval(got.args[2])
        return r is not None and r[1] is not None and m & (m + 1) == 0 and r[1] <= m
    if got.op == "call" and callee_of(got.args[0])[0] == "int" and len(got.args[1]) == 1:
        return same_int(I, st, got.args[1][0], want)
    return False


def sequence(I, st, t):
    """Elements of a list or tuple whose length is known."""
    if t is None:
        return None
    if t.op == "tup":
        return list(t.args)
    if t.op == "ref":
        h = I.hget(st, t)
        if h.kind == "list" and h.exact:
            return list(h.data)
    return None


def refused(p):
    return p.kind == "raise" and p.val.op == "exc" and show(p.val.args[0]).split(":")[-1].split(".")[-1] == "InvalidPduState"


def allowed_refusal(I, l, p):
    """A write request for a register that is not in the list being consulted is refused; that is decided elsewhere."""
    return (
        l.cls.endswith("WriteHoldingRegisterRequest")
        and refused(p)
        and any(b is False and f.op == "cmp" and f.args[0] == "in" and f.args[1] == Term("field", DATA, 28, 2) for f, b in p.st.facts.items())
    )


def compare_decoded(chk, I, pol, l, p, where):
    o = I.hget(p.st, p.val)
    want = I.cls(l.cls)
    if o.cls is not want:
        chk.violation("decode", l.name, where, f"the frame of a {l.name} decodes to a {o.cls.name if o.cls else show(p.val)}")
        return False
    bad = []
    for a, off, size in l.ints:
        g = get(I, p, p.val, a)
        if not same_int(I, p.st, g, pol.field(off, size)):
            bad.append(f"{a} is {show(g) if g is not None else g}, not the {size} bytes at {off}")
    for a, off, size in l.texts:
        g = get(I, p, p.val, a)
        if g is None or not is_text(g, off, size, pol):
            bad.append(f"{a} is {show(g) if g is not None else g}, not the {size} characters at {off}")
    for a, off, n in l.lists:
        xs = sequence(I, p.st, get(I, p, p.val, a))
        if xs is None or len(xs) != n or any(not same_int(I, p.st, x, pol.field(off + 2 * i, 2)) for i, x in enumerate(xs)):
            bad.append(f"{a} is not the {n} words from {off} on: {str(xs)[:80]}")
    if l.tfc is not None and get(I, p, p.val, "error") != K(l.error):
        bad.append(f"error is {show(get(I, p, p.val, 'error'))}, not {l.error}")
    for b in bad:
        chk.violation("decode", l.name, where, b)
    if not bad:
        chk.ok("decoded layouts", f"{l.name}: {len(l.ints) + len(l.texts)} fields, {sum(n for _, _, n in l.lists)} words")
    return not bad


def compare_encoded(chk, I, pol, l, p, where, ints, texts, lists, what):
    """The byte string of one encode() path against the layout; ints/texts/lists give the value expected of each field."""
    fs = fields(p.val)
    if fs is None or any(f.size is None for f in fs):
        chk.violation("encode", l.name, where, f"{what}: the frame built is not a sequence of known fields: {show(p.val)[:160]}")
        return
    at, off = {}, 0
    for f in fs:
        at[off] = f
        off += f.size
    bad = []
    if off != l.length:
        bad.append(f"the frame is {off} bytes long, not {l.length}")
    head = [(0, 2, 0x5959), (2, 2, 1), (4, 2, l.length - 6), (6, 1, 1), (7, 1, l.fc)]
    if l.tfc is not None:
        head.append((27, 1, l.tfc | (0x80 if l.error else 0)))
    covered = set()

    def unsigned(o, size):
        f = at.get(o)
        part = [at[x].term for x in range(o, o + size) if x in at and at[x].size == 1 and is_k(at[x].term)]
        if len(part) == size:  # constant bytes, however they were cut
            covered.update(range(o, o + size))
            return K(int.from_bytes(bytes(kval(x) & 0xFF for x in part), "big"))
        if f is None or f.size != size or (size > 1 and f.order != ">") or not (f.code.isupper() or is_k(f.term)):
            return None
        covered.add(o)
        return f.term

    for o, size, v in head:
        t = unsigned(o, size)
        if t is None or not same_int(I, p.st, t, K(v)):
            t = evaluated(t)
            if t != v:
                bad.append(f"bytes {o}..{o + size} hold {show(at[o].term) if o in at else 'no field'}, not {v:#x}")
    for a, o, size in l.ints:
        if a == "check" and l.crc:
            continue
        t = unsigned(o, size)
        if t is None or not same_int(I, p.st, t, ints[a]):
            bad.append(f"the field at {o} is {at[o] if o in at else 'missing'}, not {a} as {size} big-endian bytes")
    for a, o, size in l.texts:
        f = at.get(o)
        covered.add(o)
        e = pol.encoded(f.term, size) if f is not None and f.code == "s" and f.size == size else None
        if e is None or e[0] != texts[a]:
            bad.append(f"the field at {o} is {at[o] if o in at else 'missing'}, not {a} in {size} characters")
        elif e[1].lower().replace("_", "-") not in ("latin1", "latin-1", "iso-8859-1", "iso8859-1"):
            bad.append(f"{a} is encoded as {e[1]}, but decoded one byte per character (latin-1): a byte above 0x7f does not survive")
    for a, o, n in l.lists:
        for i in range(n):
            t = unsigned(o + 2 * i, 2)
            if t is None or not same_int(I, p.st, t, lists[a][i]):
                bad.append(f"word {i} of {a} at {o + 2 * i} is {at.get(o + 2 * i)}")
                break
    if l.crc and l.length - 2 in at:
        o = l.length - 2
        f = at[o]
        covered.add(o)
        cs = crc_of(f.term)
        if len(cs) != 1 or f.size != 2:
            bad.append(f"the last two bytes are {f}, not a Modbus CRC")
        else:
            raw, over = cs[0]
            order = swapped(f.term, raw)
            if (order, f.order) not in (("swap", ">"), ("same", "<")):
                bad.append(f"the CRC is written as {f.order}{show(f.term)}: not low byte first")
            got = fields(over)
            if got is None or [(x.code, x.size, x.term, x.order if x.size and x.size > 1 and x.code != "s" else None) for x in got] != [
                (x.code, x.size, x.term, x.order if x.size and x.size > 1 and x.code != "s" else None) for oo, x in sorted(at.items()) if 26 <= oo < o
            ]:
                bad.append(f"the CRC is computed over {str(got)[:120]}, not over the bytes from the device address to the last data byte")
    elif l.crc:
        bad.append("no CRC field at the end of the frame")
    extra = set(at) - covered
    if extra and not bad:
        bad.append(f"undocumented fields at {sorted(extra)[:5]}")
    for b in bad[:3]:
        chk.violation("encode", l.name, where, f"{what}: {b}")
    if not bad:
        chk.ok("encoded layouts", f"{l.name} ({what}): {len(fs)} fields")


def evaluated(t):
    try:
        return value(t, {}) if t is not None else None
    except Unknown:
        return None


def encode_paths(chk, I, ref, cls, st):
    fn = I.method(cls, "encode")
    return fn, chk.explore(I, fn, {"self": ref}, st=st)


def one_layout(chk, I, l):
    pol = CodecPolicy(I, l.length, frame(l))
    fn, ps = decode_paths(chk, I, pol, l.root)
    where = chk.loc(I, fn)
    done = None
    for p in ps:
        if p.kind == "raise":
            if not allowed_refusal(I, l, p):
                chk.violation("decode", l.name, where, f"a well-formed {l.name} frame is refused: {show(p.val)} ({facts_str(p.st)[:200]})")
            continue
        if p.val.op != "ref":
            chk.violation("decode", l.name, where, f"a well-formed {l.name} frame decodes to {show(p.val)}")
            continue
        if l.fc == 2 and is_lan(I, pol, p):
            chk.count("LAN broadcasts set aside")
            continue
        if compare_decoded(chk, I, pol, l, p, where) and done is None:
            done = p
    if done is None:
        if not chk.findings:
            chk.violation("decode", l.name, where, f"no path decodes a {l.name} frame")
        return
    if l.n is not None and l.n not in ROUNDTRIP:
        return
    # back again, from the message just decoded
    I.policy = pol
    ef, eps = encode_paths(chk, I, done.val, I.cls(l.cls), done.st)
    ew = chk.loc(I, ef)
    ints = {a: pol.field(o, s) for a, o, s in l.ints}
    texts = {a: get(I, done, done.val, a) for a, _, _ in l.texts}
    lists = {a: [pol.field(o + 2 * i, 2) for i in range(n)] for a, o, n in l.lists}
    judge_encode(chk, I, pol, l, eps, ew, ints, texts, lists, "re-encoding a decoded message")


def judge_encode(chk, I, pol, l, eps, ew, ints, texts, lists, what):
    good = 0
    for q in eps:
        if q.kind == "raise":
            if l.cls.endswith("WriteHoldingRegisterRequest") and refused(q) and any(b is False and f.op == "cmp" and f.args[0] == "in" for f, b in q.st.facts.items()):
                continue
            chk.violation("encode", l.name, ew, f"{what}: encode() fails with {show(q.val)} ({facts_str(q.st)[:160]})")
            continue
        good += 1
        compare_encoded(chk, I, pol, l, q, ew, ints, texts, lists, what)
    if not good and not chk.findings:
        chk.violation("encode", l.name, ew, f"{what}: encode() never returns a frame")


def from_keywords(chk, I, l):
    """encode() of a message built by its constructor."""
    src = Term("param", "given")
    off = [0]

    def word(size):
        off[0] += size
        t = Term("field", src, off[0], size)
        I.types.setdefault(t, ("ext", "int"))
        return t

    ci = I.cls(l.cls)
    ints = {a: word(s) for a, _, s in l.ints}
    if "register_count" in ints:
        ints["register_count"] = K(l.n if l.n is not None else 7)
    texts = {}
    for a, _, n in l.texts:
        texts[a] = Term("param", "given-" + a)
        I.types[texts[a]] = ("ext", "str")
    lists = {a: [word(2) for _ in range(n)] for a, _, n in l.lists}
    pol = CodecPolicy(I, None, {}, DATA, {t: 10 for t in texts.values()})
    I.policy = pol
    st = State()
    st.facts = {**st.facts, **{t: True for t in texts.values()}}
    kw = {**ints, **texts, **{a: I.alloc(st, H("list", None, tuple(v), True)) for a, v in lists.items()}}
    if l.tfc is not None:
        kw["error"] = K(l.error)
    I.sinks = [[]]
    res = I.construct(ci, [], kw, st, None)
    init = I.method(ci, "__init__")
    where = chk.loc(I, init) if init is not None else l.cls
    for s, e, n in I.sinks[0]:
        chk.violation("construct", l.name, where, f"a message with every field in range cannot be built: {show(e)}")
    for s, ref in res:
        ef, eps = encode_paths(chk, I, ref, ci, s)
        judge_encode(chk, I, pol, l, eps, chk.loc(I, ef), ints, texts, lists, "encoding a message built from its fields")


CSV = b",192.168.7.25,255.255.254.0,10.31.5.61\r\n\r\n"


def lan(chk, I):
    """LAN broadcasts: recognised by seven zeros and a comma, and re-encoded as they were."""
    n = 25 + len(CSV) + 2
    pins = {}
    pin(pins, 0, 2, 0x5959)
    pin(pins, 2, 2, 1)
    pin(pins, 4, 2, n - 6)
    pin(pins, 6, 1, 1)
    pin(pins, 7, 1, 2)
    for i in range(18, 25):
        pins[i] = 0
    pins[25] = 0x2C
    pol = CodecPolicy(I, n, pins)
    fn, ps = decode_paths(chk, I, pol, IN)
    where = chk.loc(I, fn)
    ci = I.cls("pdu.lan_config:LanConfigBroadcast")
    body = pol.cut(25, n - 2)
    env = {body: CSV}
    good = 0
    for p in ps:
        if not consistent(p.st, env):
            continue
        if p.kind != "return" or p.val.op != "ref" or I.hget(p.st, p.val).cls is not ci:
            chk.violation("decode", "LanConfigBroadcast", where, f"a LAN configuration broadcast decodes to {show(p.val)} ({facts_str(p.st)[:160]})")
            continue
        bad = []
        if not is_text(get(I, p, p.val, "data_adapter_serial_number"), *SERIAL[1:], pol):
            bad.append(f"data_adapter_serial_number is {show(get(I, p, p.val, 'data_adapter_serial_number'))}")
        if not same_int(I, p.st, get(I, p, p.val, "check"), pol.field(n - 2, 2)):
            bad.append(f"check is {show(get(I, p, p.val, 'check'))}, not the last two bytes")
        for a, want in (("ip", "192.168.7.25"), ("netmask", "255.255.254.0"), ("gateway", "10.31.5.61")):
            g = get(I, p, p.val, a)
            try:
                v = value(g, env)
            except Unknown:
                v = show(g)
            if v != want:
                bad.append(f"{a} of a broadcast holding {CSV!r} is {v!r}")
        for b in bad:
            chk.violation("decode", "LanConfigBroadcast", where, b)
        if bad:
            continue
        good += 1
        chk.ok("LAN broadcasts decoded")
        I.policy = pol
        ef, eps = encode_paths(chk, I, p.val, ci, p.st)
        ew = chk.loc(I, ef)
        for q in eps:
            if q.kind == "raise":
                chk.violation("encode", "LanConfigBroadcast", ew, f"encode() fails with {show(q.val)}")
                continue
            lan_encoded(chk, I, pol, p, q, ew, n, body)
    if not good and not chk.findings:
        chk.violation("decode", "LanConfigBroadcast", where, "no path decodes a LAN configuration broadcast")


def consistent(st, env):
    for f, b in st.facts.items():
        try:
            if bool(value(f, env)) != b:
                return False
        except Unknown:
            pass
    return True


def lan_encoded(chk, I, pol, p, q, ew, n, body):
    fs = fields(q.val) or []
    flat = []
    for f in fs:
        if is_k(f.term) and isinstance(kval(f.term), int) and f.code in ("B", "H", "I", "Q") and f.order == ">":
            flat += list(kval(f.term).to_bytes(f.size, "big"))
        else:
            flat.append(f)
    want_head = [0x59, 0x59, 0, 1, *(n - 6).to_bytes(2, "big"), 1, 2]
    bad = None
    if [x if isinstance(x, int) else None for x in flat[:8]] != want_head:
        bad = f"the header is {str(flat[:8])[:200]}"
    rest = flat[8:]
    e = pol.encoded(rest[0].term, 10) if rest and not isinstance(rest[0], int) else None
    if bad is None and (e is None or e[0] != get(I, p, p.val, "data_adapter_serial_number")):
        bad = "the adapter serial does not follow the header"
    tail = rest[1:]
    if bad is None and tail[:7] != [0] * 7:
        bad = "the seven zero bytes are missing"
    if bad is None and not (len(tail) == 9 and not isinstance(tail[7], int) and tail[7].term == body and not isinstance(tail[8], int) and tail[8].size == 2 and tail[8].order == ">" and same_int(I, q.st, tail[8].term, pol.field(n - 2, 2))):
        bad = f"the body is {str(tail[7:])[:200]}, not the text and check bytes that were decoded"
    if bad:
        chk.violation("encode", "LanConfigBroadcast", ew, bad)
    else:
        chk.ok("LAN broadcasts re-encoded")


def check(chk):
    I = chk.interp()
    for l in layouts():
        one_layout(chk, I, l)
    for l in layouts((0, 1, 60)):
        from_keywords(chk, I, l)
    lan(chk, I)


MINIMUMS = [("decoded layouts", 180), ("encoded layouts", 30), ("LAN broadcasts decoded", 1), ("LAN broadcasts re-encoded", 1)]
