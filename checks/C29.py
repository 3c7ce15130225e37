"""Exported caches load back exactly."""
from sa.check import facts_str
from sa.core import K, NONE, Term, is_k, kval, show
from sa.plantworld import World
from sa.textmodel import JsonPolicy, cells, text

TITLE = "Exported register caches load back exactly"
RULE = (
    "RegisterCache.json() then from_json(), and to_compact() then parse_compact(), are followed with every register value unknown, for caches of every shape met in practice (whole blocks, gaps, blocks across the "
    "60-register grid, several banks and devices, None values). Each register must come back with the very value it had and no other may appear. Rows must be ordered, must not cross the grid, and must follow the "
    "documented grammar. from_json() must drop exactly the entries that are not registers with 16-bit values, parse_compact() exactly the rows that are not complete, and both must keep every other entry."
)
MOD = "model.register_cache:"


class Found(Exception):
    """One violation is enough for a part: what follows may take unboundedly many courses."""


def until_found(f):
    def part(chk, I):
        try:
            f(chk, I)
        except Found:
            pass

    return part


class Case:
    def __init__(self, chk, I, what, caches):
        """caches: {device: {(bank, index): value}}; value None stands for an unknown 16-bit number."""
        self.chk, self.I, self.what, self.good = chk, I, what, True
        self.shape = {d: {k: Term("u16", f"{k[0]}{k[1]}@{d}") if v is None else v for k, v in c.items()} for d, c in caches.items()}
        self.w = World(I, self.shape)
        self.policy = JsonPolicy(I)

    def run(this, qual, /, **args):
        f = this.I.func(MOD + qual)
        this.chk.require(f is not None, qual)
        this.at = this.chk.loc(this.I, f)
        this.I.stats["steps"] = 0
        this.I.policy = this.policy
        out = list(this.chk.explore(this.I, f, args, st=this.w.st))
        this.chk.count("paths followed", len(out))
        return out

    def fail(self, rule, msg):
        if self.good:
            self.chk.violation(rule, self.what, self.at, f"{self.what}: {msg}")
        self.good = False

    def done(self, kind):
        if not self.good:
            raise Found
        self.chk.ok(kind, self.what)

    def contents(self, st, ref):
        """{(bank, index): value} of a cache."""
        if ref.op != "ref":
            return None
        o = self.I.hget(st, ref)
        if o.kind == "inst" and o.cls is not None and "data" in o.data:
            o = self.I.hget(st, o.data["data"])
        if o.kind != "dict" or not o.exact:
            return None
        out = {}
        for k, v in o.data:
            r = self.I.hget(st, k) if k.op == "ref" else None
            if r is None or r.kind != "inst" or r.cls.name not in ("HR", "IR", "MR") or not is_k(r.data.get("_idx", NONE)):
                return {("?", show(k)): v}
            out[r.cls.name, kval(r.data["_idx"])] = v
        return out

    def devices(self, st, ref):
        o = self.I.hget(st, ref) if ref.op == "ref" else None
        if o is None or o.kind != "dict" or not o.exact:
            return None
        return {kval(k) if is_k(k) else k: self.contents(st, v) for k, v in o.data}


def differ(want, got):
    if got is None:
        return "the result is not a known cache"
    for k in want:
        if k not in got:
            return f"{name(k)} is lost"
        if got[k] != want[k]:
            return f"{name(k)} comes back as {show(got[k])} instead of {show(want[k])}"
    for k in got:
        if k not in want:
            return f"{name(k)} appears with {show(got[k])}"
    return None


def name(k):
    return f"{k[0]}({k[1]})" if isinstance(k, tuple) else f"device {k}"


def when(p):
    f = facts_str(p.st)
    return f" (when {f[:160]})" if f else ""


def span(bank, *ranges):
    return {(bank, i): None for a, b in ranges for i in range(a, b)}


SHAPES = {
    "an empty cache": {},
    "one register": span("HR", (0, 1)),
    "one block": span("IR", (0, 60)),
    "two blocks": span("HR", (0, 120)),
    "a block across the grid": span("HR", (50, 70)),
    "blocks off the grid": span("IR", (1613, 1634)),
    "the last registers": span("HR", (65530, 65536)),
    "gaps": span("IR", (0, 3), (5, 6), (58, 61), (119, 120), (180, 240)),
    "all banks": {**span("HR", (0, 3)), **span("IR", (0, 2), (60, 62)), **span("MR", (60, 65))},
    "banks in another order": {**span("MR", (60, 62)), **span("IR", (0, 2)), **span("HR", (0, 3))},
    "registers in another order": {("HR", i): None for i in (61, 2, 0, 60, 1, 59)},
    "three digits to five": span("HR", (99, 101), (999, 1001), (9999, 10001)),
    "none in the middle": {**span("HR", (0, 5)), ("HR", 2): NONE},
    "none at both ends": {**span("HR", (60, 66)), ("HR", 60): NONE, ("HR", 65): NONE},
    "only none": {("HR", 5): NONE},
}


def check(chk):
    I = chk.interp()
    for f in ("RegisterCache.json", "RegisterCache.from_json", "to_compact", "parse_compact"):
        chk.require(I.func(MOD + f) is not None, f)
    chk.parallel([lambda f=f: until_found(f)(chk, I) for f in (json_round, json_entries, compact_round, compact_text)])


def json_round(chk, I):
    for what, shape in SHAPES.items():
        c = Case(chk, I, f"json() of {what}", {1: shape})
        for p in c.run("RegisterCache.json", self=c.w.caches[1]):
            if p.kind != "return" or p.val.op != "jsontext":
                c.fail("export", f"json() ends in {show(p.val)[:100]}{when(p)}")
                continue
            if c.contents(p.st, c.w.caches[1]) != c.shape[1]:
                c.fail("export", "json() changes the cache")
            c.w.st = p.st
            for q in c.run("RegisterCache.from_json", cls=Term("cls", I.cls(MOD + "RegisterCache")), data=p.val):
                why = differ(c.shape[1], c.contents(q.st, q.val)) if q.kind == "return" else f"loading ends in {show(q.val)[:100]}"
                if why:
                    c.fail("round trip", why + when(q))
        c.done("json round trips")


def load(c, entries, want, kind):
    doc = Term("jsontext", ("dict", tuple(entries)))
    for q in c.run("RegisterCache.from_json", cls=Term("cls", c.I.cls(MOD + "RegisterCache")), data=doc):
        why = differ(want, c.contents(q.st, q.val)) if q.kind == "return" else f"loading ends in {show(q.val)[:100]}"
        if why:
            c.fail("entries", why + when(q))
    c.done(kind)


def json_entries(chk, I):
    a, b = Term("u16", "a"), Term("u16", "b")
    for key, reg in (("HR(5)", ("HR", 5)), ("IR(5)", ("IR", 5)), ("MR(5)", ("MR", 5)), ("HR:5", ("HR", 5)), ("IR:60", ("IR", 60)), ("MR:7", ("MR", 7)), ("HR(0)", ("HR", 0)), ("IR(65535)", ("IR", 65535)), ("HR(1000)", ("HR", 1000))):
        load(Case(chk, I, f"the key {key}", {}), [("HR(1)", a), (key, b)], {("HR", 1): a, reg: b}, "keys")
    for key in ("XR(5)", "HR5", "HR(x)", "HR:x", "HR()", "HR:", "", "hr(5)", "(5)", ":5", "timestamp", "H(5)", "HR(5.5)"):
        load(Case(chk, I, f"the key {key!r}", {}), [("HR(1)", a), (key, b), ("IR(3)", b)], {("HR", 1): a, ("IR", 3): b}, "bad keys")
    good = {"0": K(0), "1": K(1), "65535": K(65535), "null": NONE, "a 16-bit number": b}
    bad = {
        "true": K(True), "false": K(False), "-1": K(-1), "65536": K(65536), "1.5": K(1.5), "0.1": K(0.1), "-0.5": K(-0.5), "65535.5": K(65535.5), "'5'": K("5"), "'evil'": K("evil"), "''": K(""), "10**20": K(10**20),
        "Infinity": K(float("inf")), "-Infinity": K(float("-inf")), "NaN": K(float("nan")), "[]": ("list", ()), "[1]": ("list", (K(1),)), "{}": ("dict", ()),
    }  # fmt: skip
    for what, v in good.items():
        load(Case(chk, I, f"the value {what}", {}), [("HR(1)", a), ("HR(2)", v), ("IR(3)", b)], {("HR", 1): a, ("HR", 2): v, ("IR", 3): b}, "values")
    for what, v in bad.items():
        load(Case(chk, I, f"the value {what}", {}), [("HR(1)", a), ("HR(2)", v), ("IR(3)", b)], {("HR", 1): a, ("IR", 3): b}, "bad values")
    # a number outside 16 bits, whichever
    c = Case(chk, I, "any number above 65535", {})
    big = Term("param", "big")
    c.I.types[big] = ("ext", "int")
    c.w.st.facts = {**c.w.st.facts, Term("isinstance", big, Term("ext", "int")): True, Term("cmp", "is", big, NONE): False, Term("cmp", "le", K(65536), big): True, Term("cmp", "le", big, K(10**9)): True}
    load(c, [("HR(1)", a), ("HR(2)", big), ("IR(3)", b)], {("HR", 1): a, ("IR", 3): b}, "bad values")
    c = Case(chk, I, "any number below 0", {})
    neg = Term("param", "negative")
    c.I.types[neg] = ("ext", "int")
    c.w.st.facts = {**c.w.st.facts, Term("isinstance", neg, Term("ext", "int")): True, Term("cmp", "is", neg, NONE): False, Term("cmp", "le", neg, K(-1)): True, Term("cmp", "le", K(-(10**9)), neg): True}
    load(c, [("HR(1)", a), ("HR(2)", neg), ("IR(3)", b)], {("HR", 1): a, ("IR", 3): b}, "bad values")


def several():
    for what, shape in SHAPES.items():
        yield what, {0x11: shape}
    yield "several devices", {0x32: span("IR", (60, 120)), 0x11: {**span("HR", (0, 60)), **span("IR", (0, 60))}, 0x01: span("MR", (60, 65)), 0x70: span("IR", (60, 65))}
    yield "the outer device addresses", {0xFF: span("IR", (0, 2)), 0x00: span("HR", (0, 2)), 0x0A: span("IR", (3, 5))}
    for a in range(0, 60, 3):
        # device 1 + k starts its run at register a + k and crosses two page boundaries; further runs begin after gaps
        yield f"runs from every register on, {a} to {a + 2}", {
            1 + k: {**span("HR", (a + k, a + k + 64)), **span("IR", *((120 + a + k + 61 * n, 120 + a + k + 61 * n + 1 + n) for n in range(3)))} for k in range(3)
        }
    yield "no device", {}
    yield "an empty device among others", {1: span("HR", (0, 2)), 2: {}, 3: span("IR", (0, 1))}


def rows_of(cs):
    """The rows of a text, as lists of characters."""
    out, cur = [], []
    for ch in cs:
        if ch == "\n":
            out.append(cur)
            cur = []
        else:
            cur.append(ch)
    return out, cur


def rows_wanted(c):
    for d in sorted(c.shape):
        for bank in ("HR", "IR", "MR"):
            idx = sorted(i for b, i in c.shape[d] if b == bank and c.shape[d][b, i] != NONE)
            start = 0
            for n in range(1, len(idx) + 1):
                if n == len(idx) or idx[n] != idx[n - 1] + 1 or idx[n] % 60 == 0:
                    run = idx[start:n]
                    head = f"0x{d:02x}:{bank}({run[0]},{len(run)}) "
                    yield list(head) + [("hex", c.shape[d][bank, i], k, 4) for i in run for k in range(4)]
                    start = n


def compact_round(chk, I):
    for what, shape in several():
        c = Case(chk, I, f"to_compact() of {what}", shape)
        want = {d: {k: v for k, v in m.items() if v != NONE} for d, m in c.shape.items()}
        want = {d: m for d, m in want.items() if m}
        arg = c.w.dict(tuple((K(d), r) for d, r in c.w.caches.items()))
        for p in c.run("to_compact", caches=arg):
            try:
                got = cells(p.val) if p.kind == "return" else None
            except Exception:
                got = None
            if got is None:
                c.fail("export", f"to_compact() ends in {show(p.val)[:100]}{when(p)}")
                continue
            rows, rest = rows_of(got)
            wanted = list(rows_wanted(c))
            if rest or rows != wanted:
                n = next((i for i, (x, y) in enumerate(zip(rows, wanted)) if x != y), min(len(rows), len(wanted)))
                c.fail("rows", f"row {n + 1} is {shown(rows[n] if n < len(rows) else rest)}, expected {shown(wanted[n]) if n < len(wanted) else 'none'}")
            c.w.st = p.st
            parse(c, p.val, want)
        c.done("compact round trips")


def shown(cs):
    return repr("".join(x if isinstance(x, str) else "·" for x in cs)[:60])


def parse(c, t, want):
    for q in c.run("parse_compact", text=t):
        got = c.devices(q.st, q.val) if q.kind == "return" else None
        if got is None:
            c.fail("parse", f"parse_compact() ends in {show(q.val)[:100]}{when(q)}")
            continue
        for d in {**want, **got}:
            if d not in got:
                c.fail("parse", f"device {d:#x} is lost")
            elif d not in want:
                c.fail("parse", f"device {d} appears")
            else:
                why = differ(want[d], got[d])
                if why:
                    c.fail("parse", f"device {d:#x}: {why}{when(q)}")


def digits(*names):
    return [("hex", Term("u16", n), k, 4) for n in names for k in range(4)]


def row(head, *names):
    return list(head) + digits(*names)


def U(n):
    return Term("u16", n)


def compact_text(chk, I):
    two = row("0x32:IR(60,2) ", "a", "b")
    last = row("0x11:HR(5,1) ", "z")
    both = {0x32: {("IR", 60): U("a"), ("IR", 61): U("b")}, 0x11: {("HR", 5): U("z")}}
    z = {0x11: {("HR", 5): U("z")}}

    def case(what, lines, want):
        c = Case(chk, I, what, {})
        body = [ch for ln in lines for ch in [*ln, "\n"]]
        parse(c, text(body[:-1] if what.endswith("unended line") else body), want)
        c.done("texts")

    case("two rows", [two, last], both)
    case("two rows in another order", [last, two], both)
    case("two rows, unended line", [two, last], both)
    case("comments and blank lines between rows", [list("# from 10.0.0.1:8899"), two, [], list("Probing 0x33 ..."), list("..IR(120,60)"), last, list("done")], both)
    case("indented rows", [list("   ") + two + list("  "), list("\t") + last], both)
    case("rows ended with carriage returns", [[*two, "\r"], [*last, "\r"]], both)
    case("several spaces before the values", [list("0x32:IR(60,2)   ") + two[14:], last], both)
    case("upper case device", [row("0x3A:IR(60,2) ", "a", "b"), last], {0x3A: both[0x32], **z})
    head = list("0x32:IR(60,2) ")
    vals = two[14:]
    for cut in range(1, 9):
        case(f"values reflowed after {cut} digits", [head + vals[:cut], *([vals[cut:]] if cut < 8 else []), last], both)
    case("values reflowed over four lines", [head + vals[:1], vals[1:4], vals[4:5], vals[5:], last], both)
    case("values on indented lines of their own", [head + vals[:1], list("    ") + vals[1:5], list("    ") + vals[5:], last], both)
    case("a row with too few values", [row("0x32:IR(60,3) ", "a", "b"), last], z)
    case("a row with too many values", [row("0x32:IR(60,1) ", "a", "b"), last], z)
    case("a row with half a value", [head + vals[:6], last], z)
    case("a row reflowed into too many values", [head + vals[:6], vals[6:] + digits("c"), last], z)
    case("a row cut off by a comment", [head + vals[:4], list("# --- 8< ---"), vals[4:], last], z)
    case("a row cut off by the end", [last, head + vals[:4]], z)
    case("a row of an unknown bank", [row("0x32:XR(60,2) ", "a", "b"), last], z)
    case("a row with a stray word", [two + list(" x"), last], z)
    case("a row without its bracket", [row("0x32:IR 60,2 ", "a", "b"), last], z)
    case("two rows of one bank", [row("0x11:HR(0,1) ", "a"), row("0x11:HR(1,1) ", "b"), last], {0x11: {("HR", 0): U("a"), ("HR", 1): U("b"), ("HR", 5): U("z")}})
    case("a register given twice", [row("0x11:HR(5,1) ", "a"), last], z)
    case("the same index in each bank", [row("0x11:HR(5,1) ", "a"), row("0x11:IR(5,1) ", "b"), row("0x11:MR(5,1) ", "c")], {0x11: {("HR", 5): U("a"), ("IR", 5): U("b"), ("MR", 5): U("c")}})
    case("the older form", [list("# IR probe @ device 0x32 (10.0.0.1:8899)"), row("IR(60,2): ", "a", "b"), list("# HR probe @ device 0x11"), row("HR(5,1): ", "z")], both)
    case("the older form with two rows", [list("# IR probe @ device 0x11"), row("IR(60,1): ", "a"), row("IR(61,1): ", "b")], {0x11: {("IR", 60): U("a"), ("IR", 61): U("b")}})
    case("the older form reflowed", [list("# IR probe @ device 0x32"), list("IR(60,2): ") + vals[:5], vals[5:], last], both)
    case("the older form without a header", [row("IR(60,2): ", "a", "b"), last], z)
    case("nothing", [[]], {})


MINIMUMS = (("json round trips", 15), ("keys", 9), ("bad keys", 10), ("values", 5), ("bad values", 18), ("compact round trips", 18), ("texts", 30))
