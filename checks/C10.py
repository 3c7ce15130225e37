"""Malformed frames are refused, and only in the documented way."""
from checks.C08 import decode_paths, frame, is_lan
from sa.check import facts_str
from sa.core import K, Term, is_k, kval, show
from sa.framemodel import CodecPolicy, pin
from sa.lin import least, most
from sa.spec_frames import IN, OUT, layouts

TITLE = "Malformed frames are refused with InvalidFrame or InvalidPduState"
RULE = (
    "decode_bytes() of both message roots is explored on frames that are not well formed: every length below the shortest frame; every truncation of every layout; each header field left unknown; every "
    "main and transparent function code; register counts that disagree with the words present; request counts out of range. Data bytes are symbols. No explored path may return a message (where one "
    "header field is unknown, every returning path must have established its required value), and every exception leaving decode_bytes() is InvalidFrame or InvalidPduState."
)
ROOTS = (IN, OUT)


class Judge:
    def __init__(self, chk, I):
        self.chk, self.I = chk, I
        self.ok_exc = tuple(Term("cls", I.cls("exceptions:" + n)) for n in ("InvalidFrame", "InvalidPduState"))

    def exception(self, p, what, where):
        c = p.val.args[0] if p.val.op == "exc" else p.val
        if p.val.op == "exc" and any(I_sub(self.I, c, x) for x in self.ok_exc):
            return True
        self.chk.violation("escapes", what, where, f"decoding {what} fails with {show(p.val)} instead of InvalidFrame or InvalidPduState ({facts_str(p.st)[:160]})")
        return False

    def run(self, root, pol, what, kind, accept=None):
        """accept(p) -> None when this message may be returned, else why not."""
        fn, ps = decode_paths(self.chk, self.I, pol, root)
        where = self.chk.loc(self.I, fn)
        good = True
        for p in ps:
            if p.kind == "raise":
                good &= self.exception(p, what, where)
                continue
            why = "it is not a well-formed frame" if accept is None else accept(p)
            if why is not None and not (p.val.op == "ref" and is_lan(self.I, pol, p)):
                self.chk.violation("accepted", what, where, f"{what} decodes to {decoded(self.I, p)}: {why} ({facts_str(p.st)[:160]})")
                good = False
        if good:
            self.chk.ok(kind, f"{what}: {len(ps)} paths")
        return ps


def I_sub(I, a, b):
    try:
        return a == b or bool(I.sub(a, b))
    except Exception:
        return False


def decoded(I, p):
    o = I.hget(p.st, p.val) if p.val.op == "ref" else None
    return o.cls.name if o is not None and o.cls is not None else show(p.val)


def header(n, fc, tfc=None):
    p = {}
    pin(p, 0, 2, 0x5959)
    pin(p, 2, 2, 1)
    pin(p, 4, 2, max(n - 6, 0))
    pin(p, 6, 1, 1)
    pin(p, 7, 1, fc)
    if tfc is not None:
        pin(p, 27, 1, tfc)
    return {o: v for o, v in p.items() if o < n}


def cut_to(pins, n):
    q = {o: v for o, v in pins.items() if o < n}
    if n >= 6:
        pin(q, 4, 2, n - 6)
    return q


def check(chk):
    I = chk.interp()
    j = Judge(chk, I)
    # too short to be anything: nothing of the frame is known
    for root in ROOTS:
        for n in range(0, 8):
            j.run(root, CodecPolicy(I, n, {}), f"{n} bytes", "too short")
    # truncated, with a header that agrees with what is left
    for l in layouts((0, 1, 4, 60)):
        if l.n == 60 and l.cls.endswith("Request"):
            continue
        full = frame(l)
        lengths = range(8, l.length) if l.n != 60 else [*range(8, 44, 5), *range(44, l.length - 16, 11), *range(l.length - 16, l.length)]
        for n in lengths:
            j.run(l.root, CodecPolicy(I, n, cut_to(full, n)), f"{l.name} cut to {n} of {l.length} bytes", "truncations")
    # every main function code
    for root in ROOTS:
        for fc in range(256):
            if fc in (1, 2):
                continue
            j.run(root, CodecPolicy(I, 44, header(44, fc)), f"main function {fc} for {root.split(':')[1]}", "unknown functions")
        known = {l.tfc for l in layouts((1,)) if l.root == root and l.tfc is not None}
        for tfc in range(256):
            if tfc & 0x7F not in known:
                j.run(root, CodecPolicy(I, 164, header(164, 2, tfc)), f"transparent function {tfc:#x} for {root.split(':')[1]}", "unknown functions")
    # one header field unknown
    for l in layouts((1, 2)):
        for off, size, want, what in ((0, 2, (0x5959,), "transaction id"), (2, 2, (1,), "protocol id"), (4, 2, (l.length - 6,), "length"), (6, 1, (0, 1), "unit id")):
            pins = {o: v for o, v in frame(l).items() if not off <= o < off + size}
            pol = CodecPolicy(I, l.length, pins)
            f = pol.field(off, size)

            def accept(p, f=f, want=want, what=what):
                if any(established(I, p.st, f, want)):
                    return None
                return f"its {what} was not found to be {' or '.join(hex(w) for w in want)}"

            ps = j.run(l.root, pol, f"{l.name} with any {what}", "header fields", accept)
            if not any(p.kind == "return" for p in ps) and not chk.findings:
                chk.violation("accepted", l.name, l.root, f"no {l.name} frame is accepted when its {what} is left to the decoder")
    # counts that disagree
    for l in layouts((0, 1, 2, 30, 60)):
        if not l.lists or l.n is None:
            continue
        off = next(o for a, o, _ in l.ints if a == "register_count")
        for c in sorted({l.n + 1, l.n + 2, 59, 60, 61, 62, 120, 255, 256, 0x8000, 0xFFFF}):
            if c <= l.n:
                continue
            pins = frame(l)
            pin(pins, off, 2, c)
            j.run(l.root, CodecPolicy(I, l.length, pins), f"{l.name} claiming {c} registers", "counts")
    # requests for an impossible number of registers
    for l in layouts((1,)):
        if not (l.cls.endswith("Request") and l.n is not None):
            continue
        off = next(o for a, o, _ in l.ints if a == "register_count")
        pins = {o: v for o, v in frame(l).items() if o not in (off, off + 1)}
        pol = CodecPolicy(I, l.length, pins)
        f = pol.field(off, 2)

        def in_range(p, f=f):
            lo, hi = least(I, p.st, f), most(I, p.st, f)
            if lo is not None and lo >= 1 and hi is not None and hi <= 60:
                return None
            return f"the register count was only found to be in [{lo}, {hi}]"

        j.run(l.root, pol, f"{l.name} with any register count", "request counts", in_range)


def established(I, st, f, want):
    """Does the path establish that field f is one of the wanted values?"""
    from itertools import chain

    yield any(b is True and t.op == "cmp" and t.args[0] == "in" and t.args[1] == f and t.args[2].op in ("kset", "tup") and {kval(x) for x in t.args[2].args[0 if t.args[2].op == "kset" else slice(None)] if is_k(x)} <= set(want) and all(is_k(x) for x in members(t.args[2])) for t, b in st.facts.items())
    for w in want:
        for t in chain((Term("cmp", "eq", f, K(w)), Term("cmp", "eq", K(w), f))):
            yield I.known(st, t) is True
    lo, hi = least(I, st, f), most(I, st, f)
    yield lo is not None and hi is not None and set(range(lo, hi + 1)) <= set(want) if lo is not None and hi is not None and hi - lo < 4 else False


def members(t):
    return t.args[0] if t.op == "kset" else t.args


MINIMUMS = [("too short", 16), ("truncations", 300), ("unknown functions", 600), ("header fields", 60), ("counts", 40), ("request counts", 3)]
