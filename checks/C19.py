"""Identifiers never leave in a share-safe export or capture: every identifier group is known, and every way out redacts it."""
import ast
import re

try:
    from re import _constants as sre_c, _parser as sre_p
except ImportError:  # pragma: no cover
    import sre_constants as sre_c
    import sre_parse as sre_p

from sa import lut
from sa.check import facts_str
from sa.clientmodel import Ev
from sa.core import K, NONE, AnalysisError, Term, is_k, kval, show, subterms
from sa.events import callee_of
from sa.interp import H, Policy

TITLE = "Share-safe exports and captures carry no recoverable serial number"
RULE = (
    "The list of identifier register groups is evaluated from the register tables and must contain every field declared as a serial or identifier, every field named *serial_number, the BMU groups and HR 8-12. "
    "For each of these groups RegisterCache.redact_serials() and FrameRedactor._redact_frame() are explored with arbitrary register contents: whatever reaches the returned cache or re-encoded frame from a group's registers, "
    "the envelope serials or a LAN configuration has passed redact_serial / redact_serial_strict / the digit-zeroing substitution, or is known not to be a serial. redact_serial() itself is decided from its patterns: "
    "both documented shapes are tried against the whole string, and no unit digit of a match is in what is returned; redact_serial_strict() returns nothing it does not know to be redacted."
)
DOC = [("LL", "DDDD", "L", "ddd"), ("LLL", "DDDD", "ddd")]  # serial shapes: letters, manufacture date, unit digits
SAN = ("redact_serial", "redact_serial_strict")
MIN_GROUPS = 20


def check(chk):
    I = chk.interp()
    conv = I.cls("model.register:Converter")
    chk.require(conv is not None, "model.register:Converter")
    patterns(chk, I, conv)
    strict(chk, I, conv)
    groups = serial_groups(chk, I)
    cache(chk, I, groups)
    frames(chk, I, groups)
    lan(chk, I)
    plant(chk, I)


# ------------------------------------------------------------------ policies
class RedactPolicy(Policy):
    """Sanitisers are left standing as calls; the group list is given."""

    unroll = 5000

    def __init__(self, I, groups=None, opaque=()):
        self.I = I
        self.groups = groups
        self.opaque = set(opaque) | set(SAN)

    def inline(self, fn, interp, st):
        return fn.name not in self.opaque and fn.name not in ("__repr__", "__str__")

    def on_call(self, interp, callee, args, kwargs, st, node):
        n, b, fn = callee_of(callee)
        if n == "_get_serial_groups" and self.groups is not None:
            return [(st, interp.alloc(st, H("list", None, tuple(Term("tup", K(a), K(b_), K(c)) for a, b_, c in self.groups))))]
        return None

    def skip_call(self, interp, node, st):
        f = node.func
        return isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "exception") and isinstance(f.value, ast.Name) and "log" in f.value.id.lower() and not any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(node))


# ------------------------------------------------------------------ patterns
def shape(pat):
    """[(charset, groups)] per character of a fixed-length pattern, or None."""
    out = []

    def walk(items, groups):
        for op, av in items:
            if op is sre_c.LITERAL:
                out.append((frozenset([chr(av)]), groups))
            elif op is sre_c.IN:
                s = charset(av)
                if s is None:
                    return False
                out.append((s, groups))
            elif op is sre_c.CATEGORY or op is sre_c.ANY:
                return False
            elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
                lo, hi, sub = av
                if lo != hi:
                    return False
                for _ in range(lo):
                    if not walk(sub, groups):
                        return False
            elif op is sre_c.SUBPATTERN:
                g, _, _, sub = av
                if not walk(sub, groups | ({g} if g else frozenset())):
                    return False
            elif op is sre_c.AT:
                if av not in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING, sre_c.AT_END_STRING):
                    return False
            else:
                return False
        return True

    try:
        p = sre_p.parse(pat)
    except re.error:
        return None
    return (out, dict(p.state.groupdict)) if walk(p, frozenset()) else None


def charset(items):
    s = set()
    for op, av in items:
        if op is sre_c.LITERAL:
            s.add(chr(av))
        elif op is sre_c.RANGE:
            s |= {chr(c) for c in range(av[0], av[1] + 1)}
        elif op is sre_c.CATEGORY and av is sre_c.CATEGORY_DIGIT:
            s |= set("0123456789")
        else:
            return None
    return frozenset(s)


LET, DIG = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), frozenset("0123456789")


def documented(chars):
    """Index of the documented shape this pattern accepts entirely, or None."""
    for i, d in enumerate(DOC):
        want = "".join(d)
        if len(want) == len(chars) and all(c >= (LET if w == "L" else DIG) for w, (c, _) in zip(want, chars)):
            return i
    return None


def pattern_text(I, t):
    """The constant text of a compiled or literal pattern."""
    if is_k(t) and isinstance(kval(t), (str, bytes)):
        return kval(t)
    if t.op == "call" and (callee_of(t.args[0])[0] or "").endswith("compile") and t.args[1] and is_k(t.args[1][0]):
        return kval(t.args[1][0])
    return None


def as_match(I, t):
    """(pattern text, subject, whole) if the term is a regular-expression match."""
    if t.op != "call":
        return None
    n, b, _ = callee_of(t.args[0])
    n = (n or "").split(".")[-1]
    if n not in ("fullmatch", "match"):
        return None
    args = list(t.args[1])
    if b is not None and pattern_text(I, b) is not None:
        pat, subj = pattern_text(I, b), args[0] if args else None
    elif args and pattern_text(I, args[0]) is not None and len(args) > 1:
        pat, subj = pattern_text(I, args[0]), args[1]
    else:
        return None
    whole = n == "fullmatch" or isinstance(pat, str) and pat.endswith(r"\Z")
    return pat, subj, whole


def matches_in(I, st, s):
    """Which documented shapes are known (not) to match `s` on this path: {index: bool}."""
    out = {}
    for f, b in st.facts.items():
        t, pos = f, b
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE:
            t, pos = f.args[1], not b
        m = as_match(I, t)
        if m is None or m[1] != s:
            continue
        sh = shape(m[0])
        d = documented(sh[0]) if sh else None
        if d is not None and (m[2] or pos is False):
            # `match` without an end anchor fails only if fullmatch fails too
            out[d] = pos
    return out


def patterns(chk, I, conv):
    fn = I.method(conv, "redact_serial")
    chk.require(fn is not None, "Converter.redact_serial")
    I.policy = p = RedactPolicy(I)
    p.opaque = set()
    S = Term("param", fn.node.args.args[0].arg)
    w = chk.loc(I, fn)
    seen = set()
    for p in chk.explore(I, fn, {fn.node.args.args[0].arg: S}):
        if p.kind != "return":
            chk.violation("pattern", "redact_serial", w, f"redact_serial raises {show(p.val)}")
            continue
        ms = matches_in(I, p.st, S)
        if p.val == S or is_k(p.val) and not kval(p.val):
            if I.known(p.st, S) is False or I.known(p.st, Term("cmp", "is", S, NONE)) is True:
                continue
            missing = [d for d in range(len(DOC)) if ms.get(d) is not False]
            if missing:
                chk.violation("pattern", "redact_serial", w, f"a string of shape {'/'.join('-'.join(DOC[d]) for d in missing)} can be returned unredacted ({facts_str(p.st)})")
            else:
                chk.ok("unredacted results: neither shape matches")
            continue
        built = chars_of(I, p.val, S)
        hit = [d for d, b in ms.items() if b]
        if built is None or len(hit) != 1:
            chk.violation("pattern", "redact_serial", w, f"returns {show(p.val)}, not the matched string with its unit digits zeroed")
            continue
        d = hit[0]
        keep = len("".join(DOC[d])) - 3
        if built != list(range(keep)) + ["0", "0", "0"]:
            leak = [c for c in built if isinstance(c, int) and c >= keep]
            chk.violation("pattern", "redact_serial", w, f"of a {'-'.join(DOC[d])} serial " + ("a unit digit is kept" if leak else "something other than prefix, date and three zeros is returned") + f": {show(p.val)}")
            continue
        seen.add(d)
        chk.ok("redacted shapes", f"{'-'.join(DOC[d])} -> prefix and date kept, unit digits zeroed")
    if not chk.findings and seen != set(range(len(DOC))):
        chk.violation("pattern", "redact_serial", w, "a documented serial shape is never redacted")


def chars_of(I, t, S):
    """[index into the matched string | literal character] the returned string consists of, or None."""
    if is_k(t) and isinstance(kval(t), str):
        return list(kval(t))
    if t.op == "fmt" and t.args[1] in (-1, 115) and (t.args[2] is None or t.args[2] == ""):
        return chars_of(I, t.args[0], S)
    if t.op == "fstr":
        out = []
        for x in t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args:
            r = chars_of(I, x, S)
            if r is None:
                return None
            out += r
        return out
    if t.op == "bin" and t.args[0] in ("+", "add", "Add"):
        a, b = chars_of(I, t.args[1], S), chars_of(I, t.args[2], S)
        return None if a is None or b is None else a + b
    if t.op == "slice" and t.args[0] == S:
        lo, hi = t.args[1], t.args[2]
        n = 10
        try:
            lo = 0 if lo == NONE or lo is None else kval(lo)
            hi = n if hi == NONE or hi is None else kval(hi)
        except Exception:
            return None
        return list(range(*slice(lo, hi).indices(n)))
    m = None
    if t.op == "call" and callee_of(t.args[0])[0] == "group":
        m, key = callee_of(t.args[0])[1], list(t.args[1])
    elif t.op in ("idx", "item"):
        m, key = t.args[0], [t.args[1]]
    if m is not None and (am := as_match(I, m)) is not None and am[1] == S and len(key) <= 1:
        sh = shape(am[0])
        if sh is None or key and not is_k(key[0]):
            return None
        g = kval(key[0]) if key else 0
        g = sh[1].get(g, g)
        return [i for i, (_, gs) in enumerate(sh[0]) if g == 0 or g in gs]
    return None


def strict(chk, I, conv):
    fn = I.method(conv, "redact_serial_strict")
    chk.require(fn is not None, "Converter.redact_serial_strict")
    I.policy = p = RedactPolicy(I)
    p.opaque = {"redact_serial"}
    S = Term("param", fn.node.args.args[0].arg)
    w = chk.loc(I, fn)
    for p in chk.explore(I, fn, {fn.node.args.args[0].arg: S}):
        if p.kind != "return":
            chk.violation("strict", "redact_serial_strict", w, f"raises {show(p.val)}")
            continue
        v = p.val
        if v == K("") or I.known(p.st, S) is False and v in (S, K(""), NONE):
            chk.ok("strict: blank")
            continue
        R = redacted_term(v, S)
        if R is not None:
            if differs(I, p.st, R, S) or any(matches_in(I, p.st, S).values()):
                chk.ok("strict: redacted")
            else:
                chk.violation("strict", "redact_serial_strict", w, f"returns what redact_serial made of it without knowing that it was recognised ({facts_str(p.st)})")
            continue
        if v == S:
            rs = {x for f in p.st.facts for x in subterms(f) if isinstance(x, Term) and redacted_term(x, S) is not None}
            unchanged = any(I.known(p.st, r) is False or equal(I, p.st, r, S) for r in rs)
            if unchanged and any(matches_in(I, p.st, S).values()):
                chk.ok("strict: already redacted")
                continue
        chk.violation("strict", "redact_serial_strict", w, f"{show(v)} can be returned although it may be an identifier ({facts_str(p.st)})")


def redacted_term(t, S):
    if t.op == "call" and callee_of(t.args[0])[0] == "redact_serial" and S in t.args[1]:
        return t
    return None


def equal(I, st, a, b):
    return I.known(st, Term("cmp", "eq", a, b)) is True or I.known(st, Term("cmp", "eq", b, a)) is True


def differs(I, st, a, b):
    return I.known(st, Term("cmp", "eq", a, b)) is False or I.known(st, Term("cmp", "eq", b, a)) is False


# -------------------------------------------------------------------- groups
class GroupPolicy(Policy):
    """Importing the model modules is modelled exactly."""

    unroll = 5000

    def on_call(self, I, callee, args, kwargs, st, node):
        n, b, fn = callee_of(callee)
        short = (n or "").split(".")[-1]
        pre = "givenergy_modbus.model."
        if short in ("iter_modules", "walk_packages"):
            items = []
            full = bool(kwargs) and dict(kwargs).get("prefix") is not None or len(args) > 1
            for m in sorted(I.prog.modules.values(), key=lambda m: m.name):
                if m.name.startswith(pre) and m.env is not None and "." not in m.name[len(pre) :]:
                    items.append(I.alloc(st, H("inst", None, {"name": K(m.name if full else m.name[len(pre) :]), "ispkg": K(False)}, True)))
            return [(st, I.alloc(st, H("list", None, tuple(items))))]
        if short in ("import_module", "__import__") and args and is_k(args[0]):
            name = kval(args[0])
            if name.startswith("."):
                name = pre[:-1] + name
            return [(st, Term("mod", name))]
        if short in ("dir", "vars", "getmembers") and args and args[0].op == "mod":
            names = [(x, v) for x, v in sorted(I.G[I.prog.modules[args[0].args[0]].env].data.items()) if isinstance(v, Term) and v.op == "cls" and v.args[0].lookup("REGISTER_LUT")[1] is not None]
            if short == "dir":
                return [(st, I.alloc(st, H("list", None, tuple(K(x) for x, _ in names))))]
            if short == "vars":
                return [(st, I.alloc(st, H("dict", None, tuple((K(x), v) for x, v in names))))]
            return [(st, I.alloc(st, H("list", None, tuple(Term("tup", K(x), v) for x, v in names))))]
        return None


def serial_groups(chk, I):
    """The identifier groups the program knows, and that they are all of them."""
    fn = I.func("model.register_cache:_get_serial_groups")
    chk.require(fn is not None, "model.register_cache:_get_serial_groups")
    w = chk.loc(I, fn)
    tables = lut.tables(I)
    I.policy = GroupPolicy()
    groups = None
    for p in chk.explore(I, fn):
        if p.kind != "return":
            chk.violation("groups", "_get_serial_groups", w, f"collecting the identifier groups raises {show(p.val)}")
            continue
        got = []
        if p.val.op == "ref" and I.hget(p.st, p.val).kind in ("list", "set") and I.hget(p.st, p.val).exact:
            items = list(I.hget(p.st, p.val).data)
        elif p.val.op == "tup":
            items = list(p.val.args)
        else:
            raise AnalysisError(f"the identifier groups do not evaluate to a list: {show(p.val)}")
        for t in items:
            if t.op != "tup" or not all(is_k(x) for x in t.args) or len(t.args) != 3:
                raise AnalysisError(f"an identifier group is not constant: {show(t)}")
            got.append(tuple(kval(x) for x in t.args))
        groups = got if groups is None else [g for g in groups if g in got]
    if groups is None:
        return []
    want = {}
    nfields = 0
    for cname, (ci, fields) in tables.items():
        for f in fields.values():
            tagged = (lut.conv_name(I, f.pre) or "").split(".")[-1] == "serial" or f.identifier == K(True)
            named = f.name.endswith("serial_number") or f.name == "serial"
            if named and not tagged:
                chk.violation("untagged", f"{cname}.{f.name}", f"{ci.module.path}:{ci.node.lineno} ({cname})", f"{cname}.{f.name} holds a serial number but is not declared as one, so no redactor covers {f.regs}")
                continue
            if tagged and f.regs:
                nfields += 1
                ts, ix = {r[0] for r in f.regs}, [r[1] for r in f.regs]
                if len(ts) != 1 or ix != list(range(ix[0], ix[0] + len(ix))):
                    chk.violation("untagged", f"{cname}.{f.name}", f"{ci.module.path}:{ci.node.lineno} ({cname})", f"the registers of identifier {f.name} are not one run: {f.regs}")
                    continue
                want.setdefault((f.regs[0][0], ix[0], len(ix)), f"{cname}.{f.name}")
    for i in range(8):
        want.setdefault(("IR", 114 + 120 * i, 5), f"BMU {i} serial")
    want.setdefault(("HR", 8, 5), "byte-swapped AIO serial")
    for g, who in want.items():
        if g in groups:
            chk.ok("identifier groups known", f"{g}: {who}")
        else:
            chk.violation("groups", "_get_serial_groups", w, f"{g[0]}({g[1]}) x{g[2]} ({who}) is not among the redacted groups")
    chk.count("serial fields", nfields)
    return sorted(set(groups) | set(want))


# ------------------------------------------------------- information flow
def expand(I, st, t, depth=0):
    """The term with the lists it refers to spelled out."""
    if depth > 40:
        return t
    if t.op == "ref":
        o = I.hget(st, t)
        if o.kind in ("list", "set") and isinstance(o.data, tuple):
            return Term("items", *(expand(I, st, x, depth + 1) for x in o.data if isinstance(x, Term)))
        return t
    if t.op in ("fn", "cls", "k", "param"):
        return t

    def one(a):
        if isinstance(a, Term):
            return expand(I, st, a, depth + 1)
        if isinstance(a, tuple):
            return tuple(one(b) for b in a)
        return a

    return Term(t.op, *(one(a) for a in t.args))


def dirty(t, sources, sans):
    """Is a source reachable in the term other than through a sanitiser?"""
    if t in sources:
        return True
    if t.op == "call":
        n = callee_of(t.args[0])[0]
        if n in sans:
            return False
    for a in t.args:
        if isinstance(a, Term):
            if dirty(a, sources, sans):
                return True
        elif isinstance(a, tuple) and dirty_tuple(a, sources, sans):
            return True
    return False


def dirty_tuple(xs, sources, sans):
    for a in xs:
        if isinstance(a, Term) and dirty(a, sources, sans) or isinstance(a, tuple) and dirty_tuple(a, sources, sans):
            return True
    return False


def order_of(t, index, out):
    """Registers of a group in the order they occur in a term."""
    if t in index:
        if index[t] not in out:
            out.append(index[t])
        return
    for a in t.args:
        if isinstance(a, Term):
            order_of(a, index, out)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    order_of(b, index, out)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, Term):
                            order_of(c, index, out)


SAFE = {"decode", "replace", "upper", "strip", "rstrip", "lstrip", "to_bytes", "join", "bytes", "pack", "struct.pack", "str", "get", "from_bytes", "encode", "int"}


def odd_step(t, sources):
    """A method on the way from the registers to the string tested which is not known to keep a serial intact."""
    if t in sources or t.op != "call":
        pass
    else:
        n, b, _ = callee_of(t.args[0])
        if n is not None and n.split(".")[-1] not in SAFE:
            return n
        if n == "replace" and list(t.args[1]) != [K("\x00"), K("")] and list(t.args[1]) != [K(b"\x00"), K(b"")]:
            return f"replace({', '.join(show(x) for x in t.args[1])})"
        if n in ("strip", "rstrip", "lstrip") and t.args[1] and not (is_k(t.args[1][0]) and set(kval(t.args[1][0]) if isinstance(kval(t.args[1][0]), str) else kval(t.args[1][0]).decode("latin1")) <= {"\x00", " "}):
            return f"{n}({show(t.args[1][0])})"
        if n == "decode" and t.args[1] and (not is_k(t.args[1][0]) or str(kval(t.args[1][0])).replace("-", "").replace("_", "") not in ("latin1", "ascii", "utf8", "iso88591")):
            return f"decode({show(t.args[1][0])})"
        if n == "to_bytes" and "little" in [kval(x) for x in t.args[1] if is_k(x)] + [kval(v) for _, v in t.args[2] if is_k(v)]:
            return "to_bytes(little endian)"
        for b_, i in ((b, None),):
            if b_ is not None and (r := odd_step(b_, sources)):
                return r
        for a in t.args[1]:
            if isinstance(a, Term) and (r := odd_step(a, sources)):
                return r
        return None
    for a in t.args:
        if isinstance(a, Term) and (r := odd_step(a, sources)):
            return r
    return None


def lost_step(t, sources):
    """What keeps the tested string from being the serial number as the library decodes it."""
    r = odd_step(t, sources)
    if r:
        return f"a serial no longer looks like one after {r}"
    names = {callee_of(x.args[0])[0] for x in subterms(t) if x.op == "call"}
    if "upper" not in names:
        return "a serial in lower case is not recognised (the library decodes it in upper case)"
    if not names & {"replace", "strip", "rstrip"}:
        return "a serial padded with NULs is not recognised"
    return None


def red_calls(t, name="redact_serial"):
    return [x for x in subterms(t) if x.op == "call" and callee_of(x.args[0])[0] == name]


def where_bytes(t):
    """Positions (lo, hi) of the constant slice a rewritten register takes, or None."""
    for x in subterms(t):
        if x.op == "slice" and all(is_k(y) or y is None or y == NONE for y in x.args[1:3]):
            lo = 0 if x.args[1] is None or x.args[1] == NONE else kval(x.args[1])
            hi = None if x.args[2] is None or x.args[2] == NONE else kval(x.args[2])
            return lo, hi
    return None


def judge_group(chk, I, st, g, src, final, rule, where):
    """One group on one path.

    src: {index: set of terms standing for the register's content}; final: {index: new value term or None (untouched)}.
    present: which registers are known to be there is read from the facts by the caller (final has no entry for absent ones).
    """
    typ, base, n = g
    index = {t: i for i, ts in src.items() for t in ts}
    sources = set(index)
    final = {i: v if v is None else expand(I, st, v) for i, v in final.items()}
    if typ == "MR":
        bad = [i for i, v in final.items() if v is None or dirty(v, sources, SAN)]
        if bad:
            chk.violation(rule, f"{typ}({base})", where, f"meter identifier register {typ}({base + bad[0]}) is passed on as it is ({facts_str(st, 4)})")
        else:
            chk.ok(f"{rule}: identifier blanked")
        return
    changed = {i: v for i, v in final.items() if v is not None}
    calls = []
    for f in list(st.facts) + [v for v in changed.values()]:
        for c in red_calls(f):
            if c not in calls and c.args[1]:
                calls.append(c)
    own = []
    for c in calls:
        got = []
        order_of(expand(I, st, c.args[1][0]), index, got)
        if got == list(range(n)):
            own.append(c)
    if not changed:
        for c in own:
            odd = lost_step(expand(I, st, c.args[1][0]), sources)
            if odd:
                chk.violation(rule, f"{typ}({base})", where, odd)
                return
            if I.known(st, Term("cmp", "is", c, NONE)) is True or I.known(st, c) is False or equal(I, st, c, c.args[1][0]):
                chk.ok(f"{rule}: not a serial")
                return
        chk.violation(rule, f"{typ}({base})", where, f"the identifier at {typ}({base}) x{n} is passed on as it is ({facts_str(st, 4)})")
        return
    if sorted(changed) != list(range(n)):
        chk.violation(rule, f"{typ}({base})", where, f"only registers {sorted(base + i for i in changed)} of {typ}({base}) x{n} are rewritten")
        return
    for i, v in changed.items():
        if dirty(v, sources, SAN):
            chk.violation(rule, f"{typ}({base})", where, f"{typ}({base + i}) is rewritten with {show(v)[:120]}, which carries register contents that were not redacted")
            return
        pos = where_bytes(v)
        if pos is not None and pos != (2 * i, 2 * i + 2) or any(is_k(x) and kval(x) == "little" for x in subterms(v)):
            chk.violation(rule, f"{typ}({base})", where, f"{typ}({base + i}) is rewritten with the bytes {pos} of the redacted serial")
            return
    if not any(differs(I, st, c, c.args[1][0]) for c in own):
        chk.violation("clobbered", f"{typ}({base})", where, f"registers {typ}({base}) x{n} are rewritten although they are not known to hold a serial ({facts_str(st, 4)})")
        return
    for c in own:
        odd = lost_step(expand(I, st, c.args[1][0]), sources)
        if odd:
            chk.violation(rule, f"{typ}({base})", where, odd)
            return
    chk.ok(f"{rule}: redacted", f"{typ}({base}) x{n}")


# --------------------------------------------------------------------- cache
def reg_id(I, st, t):
    if t.op == "ref":
        o = I.hget(st, t)
        if o.kind == "inst" and o.cls is not None:
            ty, ix = I.load_attr(t, "_type", st, None), I.load_attr(t, "_idx", st, None)
            if len(ty) == 1 and len(ix) == 1 and is_k(ty[0][1]) and is_k(ix[0][1]):
                return (kval(ty[0][1]), kval(ix[0][1]))
    return None


def register_terms(I, st, me):
    """{(type, index): terms that stand for what the cache holds there}."""
    out = {}
    seen = set()

    def visit(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "call" and callee_of(t.args[0])[0] == "get" and t.args[1]:
            r = reg_id(I, st, t.args[1][0])
            if r:
                out.setdefault(r, set()).add(t)
        elif t.op in ("idx", "item"):
            r = reg_id(I, st, t.args[1])
            if r:
                out.setdefault(r, set()).add(t)
        for a in t.args:
            if isinstance(a, Term):
                visit(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        visit(b)
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                visit(c)

    for f in st.facts:
        visit(expand(I, st, f))
    for o in st.h.values():
        d = o.data
        if isinstance(d, dict):
            for v in d.values():
                for x in v if isinstance(v, tuple) else (v,):
                    for y in x if isinstance(x, tuple) else (x,):
                        if isinstance(y, Term):
                            visit(expand(I, st, y))
    return out


def absent(I, st, terms):
    """The register is known missing (or not an integer): True/False/None."""
    for t in terms:
        if I.known(st, Term("cmp", "is", t, NONE)) is True:
            return True
        for f, b in st.facts.items():
            if f.op == "isinstance" or f.op == "call" and callee_of(f.args[0])[0] == "isinstance":
                x = f.args[0] if f.op == "isinstance" else f.args[1][0]
                if x == t:
                    return not b
        if I.known(st, Term("cmp", "is", t, NONE)) is False:
            return False
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "in":
            r = reg_id(I, st, f.args[1])
            if r is not None and any(reg_id(I, st, key_of(t)) == r for t in terms):
                return not b
    return None


def key_of(t):
    return t.args[1][0] if t.op == "call" else t.args[1]


def cache(chk, I, groups):
    rc = I.cls("model.register_cache:RegisterCache")
    chk.require(rc is not None, "model.register_cache:RegisterCache")
    fn = I.method(rc, "redact_serials")
    chk.require(fn is not None, "RegisterCache.redact_serials")
    w = chk.loc(I, fn)
    sets = [[g] for g in groups]
    sets += [[("IR", 110, 1), ("HR", 200, 1)], [("MR", 60, 1), ("IR", 110, 1)], [("IR", 110, 1), ("MR", 60, 1)]]
    me = Term("param", "self")
    for gs in sets:
        I.types[me] = ("cls", rc)
        I.policy = RedactPolicy(I, gs)
        for p in chk.explore(I, fn, {"self": me}):
            if p.kind != "return":
                chk.violation("cache", "redact_serials", w, f"raises {show(p.val)} ({facts_str(p.st)})")
                continue
            if p.val == me:
                chk.violation("cache", "redact_serials", w, "returns the cache itself, not a redacted copy")
                continue
            if p.val.op != "ref":
                raise AnalysisError(f"what redact_serials() returns does not resolve: {show(p.val)}")
            o = I.hget(p.st, p.val)
            items = {}
            pairs = o.data.get("$items", ()) if isinstance(o.data, dict) else o.data
            for k, v in pairs:
                r = reg_id(I, p.st, k)
                if r is None and k.op not in ("spread",):
                    raise AnalysisError(f"redact_serials() rewrites a register that does not resolve: {show(k)}")
                if r is not None:
                    items[r] = v
            terms = register_terms(I, p.st, me)
            for g in gs:
                src, final = {}, {}
                gone = False
                for i in range(g[2]):
                    r = (g[0], g[1] + i)
                    src[i] = terms.get(r, set())
                    ab = absent(I, p.st, src[i])
                    if ab is True:
                        gone = True
                        if r in items:
                            chk.violation("clobbered", f"{r[0]}({r[1]})", w, f"redaction adds {r[0]}({r[1]}) to a cache that does not hold it")
                        continue
                    if g[0] == "MR" and ab is None and r in items:
                        chk.violation("clobbered", f"{r[0]}({r[1]})", w, f"redaction may add {r[0]}({r[1]}) to a cache that does not hold it")
                        continue
                    final[i] = items.get(r)
                if gone and g[0] != "MR":
                    if any(v is not None for v in final.values()):
                        chk.violation("clobbered", f"{g[0]}({g[1]})", w, "an incomplete group is rewritten")
                    else:
                        chk.ok("cache: incomplete group left")
                    continue
                if not final:
                    continue
                judge_group(chk, I, p.st, g, src, final, "cache", w)


# -------------------------------------------------------------------- frames
class FramePolicy(RedactPolicy):
    def __init__(self, I, groups, pdu):
        super().__init__(I, groups, opaque=("decode_bytes", "redact", "encode"))
        self.pdu = pdu

    def on_call(self, interp, callee, args, kwargs, st, node):
        n, b, fn = callee_of(callee)
        if n == "decode_bytes":
            st = st.emit(Ev("decode_bytes", b, list(args), kwargs, node, (), fn, self.pdu))
            if self.pdu is None:
                interp.raise_(st.copy(), interp.exc_term("Exception", exact=False, note="decode_bytes"), node)
                return []
            return [(st, self.pdu)]
        if n in ("encode", "redact") and (b == self.pdu or b is not None and b.op == "call" and callee_of(b.args[0])[0] == "redact" or args and args[0] == self.pdu):
            recv = b if b is not None else args[0]
            res = Term("call", Term("attr", recv, n, 0), (), (), interp.uid(node))
            snap = None
            if recv.op == "ref":
                o = interp.hget(st, recv)
                snap = dict(o.data)
                rv = snap.get("register_values")
                if rv is not None and rv.op == "ref":
                    snap["register_values"] = Term("tup", *interp.hget(st, rv).data) if interp.hget(st, rv).exact else rv
            return [(st.emit(Ev(n, recv, [Term("str", "snap")], {}, node, (), fn, res)).emit(("snap", res, tuple(sorted(snap.items())) if snap is not None else None)), res)]
        return super().on_call(interp, callee, args, kwargs, st, node)


def leaves(I, base):
    """Message classes a decoder can produce: those of the package below `base` that name a function code."""
    out = []
    for m in I.prog.modules.values():
        if m.env is None or ".pdu" not in m.name:
            continue
        for v in I.G[m.env].data.values():
            if isinstance(v, Term) and v.op == "cls" and v.args[0].module is m and v.args[0].is_subclass(base) and v.args[0] not in out:
                out.append(v.args[0])
    return [c for c in out if not any(d is not c and d.is_subclass(c) for d in out)]


def frames(chk, I, groups):
    red = I.cls("client.client:FrameRedactor")
    chk.require(red is not None, "client.client:FrameRedactor")
    fns = [v.args[0] for v in red.attrs.values() if isinstance(v, Term) and v.op == "fn" and any(isinstance(x, ast.Attribute) and x.attr == "decode_bytes" for x in ast.walk(v.args[0].node))]
    chk.require(len(fns) == 1, "the FrameRedactor method that decodes a frame")
    fn = fns[0]
    w = chk.loc(I, fn)
    S, F = Term("param", "self"), Term("param", fn.node.args.args[1].arg)
    inc, outg = I.cls("pdu.base:ClientIncomingMessage"), I.cls("pdu.base:ClientOutgoingMessage")
    rr = I.cls("pdu.read_registers:ReadRegistersResponse")
    lanc = I.cls("pdu.lan_config:LanConfigBroadcast")
    chk.require(inc is not None and outg is not None and rr is not None and lanc is not None, "message base classes")
    for d, base in (("rx", inc), ("tx", outg)):
        st0 = redactor_state(chk, I, red, S, d)
        # a frame that does not decode
        I.types[S] = ("cls", red)
        I.policy = FramePolicy(I, groups[:1], None)
        for p in chk.explore(I, fn, {"self": S, F.args[0]: F}, st=st0):
            if p.kind == "return" and p.val == F:
                chk.ok("undecodable frames passed on")
            else:
                chk.violation("frame", fn.name, w, f"an undecodable frame {'raises' if p.kind == 'raise' else 'becomes'} {show(p.val)}")
        kinds = leaves(I, base)
        for ci in kinds:
            envelope(chk, I, fn, w, S, F, st0, ci, base, d, lanc, rr, groups)
        if d == "rx":
            for ci in kinds:
                if ci.is_subclass(rr):
                    windows(chk, I, fn, w, S, F, st0, ci, groups)


def redactor_state(chk, I, red, S, d):
    init = I.method(red, "__init__")
    I.types[S] = ("cls", red)
    I.policy = Policy()
    ps = [p for p in chk.explore(I, init, {"self": S, init.node.args.args[1].arg: K(d)}) if p.kind == "return"]
    if len(ps) != 1:
        raise AnalysisError("FrameRedactor.__init__ does not resolve")
    return ps[0].st


def build(chk, I, ci, st, kw):
    I.policy = Policy()
    I.sinks = [[]]
    I.stack = []
    I.ctx = ()
    I.yield_cb = []
    res = I.construct(ci, [], kw, st, None)
    if len(res) != 1:
        raise AnalysisError(f"{ci.name}() does not resolve to one object")
    return res[0]


IDS = ("data_adapter_serial_number", "inverter_serial_number", "ip", "netmask", "gateway", "_csv_raw")


def decoder_ok(I, p, base, chk, fn, w):
    for e in p.st.trace:
        e = e[0] if isinstance(e[0], Ev) else e
        if isinstance(e, Ev) and e.name == "decode_bytes":
            recv = e.base if e.base is not None else (e.args[0] if e.args else None)
            if recv is not None and recv.op == "cls" and (recv.args[0] is base or base.is_subclass(recv.args[0]) is False and recv.args[0].is_subclass(base)):
                return True
            chk.violation("decoder", fn.name, w, f"frames of this direction are decoded as {show(recv) if recv is not None else '?'}, so they pass undecoded")
            return False
    chk.violation("decoder", fn.name, w, "a frame is passed on without being decoded")
    return False


def snaps(p):
    out = {}
    for e in p.st.trace:
        e = e[0] if isinstance(e[0], tuple) else e
        if isinstance(e, tuple) and e and e[0] == "snap":
            out[e[1]] = dict(e[2]) if e[2] is not None else None
    return out


def envelope(chk, I, fn, w, S, F, st0, ci, base, d, lanc, rr, groups):
    ids = {n: Term("param", "$" + n) for n in IDS}
    kw = {"data_adapter_serial_number": ids["data_adapter_serial_number"]}
    if ci.is_subclass(lanc):
        kw.update({n: ids[n] for n in ("ip", "netmask", "gateway", "_csv_raw")})
    st, pdu = build(chk, I, ci, st0.copy(), kw)
    o = I.hget(st, pdu)
    data = dict(o.data)
    if "inverter_serial_number" in data or I.cls("pdu.transparent:TransparentResponse") is not None and ci.is_subclass(I.cls("pdu.transparent:TransparentResponse")):
        data["inverter_serial_number"] = ids["inverter_serial_number"]
    if ci.is_subclass(rr):
        data["error"] = K(False)
        data["base_register"], data["register_count"] = K(5), K(1)
        data["register_values"] = I.alloc(st, H("list", None, (Term("param", "$v0"),)))
    st = st.copy()
    I.hset(st, pdu, H("inst", ci, data, True))
    I.types[S] = ("cls", red_cls(I))
    I.policy = FramePolicy(I, groups[:1], pdu)
    for p in chk.explore(I, fn, {"self": S, F.args[0]: F}, st=st):
        if p.kind != "return":
            chk.violation("envelope", ci.name, w, f"redacting a {ci.name} raises {show(p.val)}")
            continue
        if not decoder_ok(I, p, base, chk, fn, w):
            return
        snap = snaps(p)
        v = p.val
        if ci.is_subclass(lanc):
            if v in snap and callee_of(v.args[0])[0] == "encode" and callee_of(v.args[0])[1].op == "call" and callee_of(callee_of(v.args[0])[1].args[0])[0] == "redact":
                chk.ok("LAN configuration frames redacted")
            else:
                chk.violation("lan-config", ci.name, w, f"a LAN configuration frame is passed on as {show(v)}, not as the encoding of its redacted form")
            continue
        if v not in snap or snap[v] is None:
            chk.violation("envelope", ci.name, w, f"a decoded {ci.name} is passed on as {show(v)}, not re-encoded")
            continue
        bad = [n for n, x in snap[v].items() if isinstance(x, Term) and dirty(x, set(ids.values()), ("redact_serial_strict",))]
        if bad:
            chk.violation("envelope", ci.name, w, f"{bad[0]} of a {d} {ci.name} is re-encoded without fail-closed redaction ({facts_str(p.st, 4)})")
            continue
        if "data_adapter_serial_number" not in snap[v]:
            raise AnalysisError("the adapter serial of a message does not resolve")
        chk.ok(f"{d} envelope serials redacted", f"{ci.name}")


def red_cls(I):
    return I.cls("client.client:FrameRedactor")


CODES = {3: "HR", 4: "IR", 0x16: "MR"}


def windows(chk, I, fn, w, S, F, st0, ci, groups):
    fc = I.class_attr(ci, "transparent_function_code", st0)
    if not is_k(fc) or kval(fc) not in CODES:
        raise AnalysisError(f"{ci.name} has no known register function code")
    typ = CODES[kval(fc)]
    mine = [g for g in groups if g[0] == typ]
    if not mine:
        raise AnalysisError(f"no identifier group of type {typ}")
    for g in mine:
        _, base, n = g
        spans = [(base, n), (max(0, base - 2), n + min(2, base)), (base, n + 1), (max(0, base - 1), n + 2)]
        if typ == "MR":
            spans += [(base + 1, n), (max(0, base - 1), n)]
        else:
            spans += [(base + 1, n), (base, n - 1)]
        for lo, cnt in spans:
            st = st0.copy()
            vals = [Term("param", f"$v{lo + i}") for i in range(cnt)]
            st, pdu = build(chk, I, ci, st, {"data_adapter_serial_number": K("WF1234G000"), "inverter_serial_number": K("SA1234G000")})
            st = st.copy()
            data = dict(I.hget(st, pdu).data)
            data["error"] = K(False)
            data["inverter_serial_number"] = K("SA1234G000")
            data["base_register"], data["register_count"] = K(lo), K(cnt)
            lst = I.alloc(st, H("list", None, tuple(vals)))
            data["register_values"] = lst
            I.hset(st, pdu, H("inst", ci, data, True))
            I.types[S] = ("cls", red_cls(I))
            for v in vals:
                I.types[v] = ("ext", "int")
                st.facts = {**st.facts, Term("cmp", "is", v, NONE): False}
            I.policy = FramePolicy(I, [g], pdu)
            for p in chk.explore(I, fn, {"self": S, F.args[0]: F}, st=st):
                if p.kind != "return":
                    chk.violation("frame-groups", f"{typ}({base})", w, f"redacting a response for {typ}({lo}) x{cnt} raises {show(p.val)} ({facts_str(p.st, 4)})")
                    continue
                snap = snaps(p).get(p.val)
                if snap is None or snap.get("register_values") is None or snap["register_values"].op != "tup" or len(snap["register_values"].args) != cnt:
                    chk.violation("frame-groups", f"{typ}({base})", w, f"the registers of a {ci.name} are not re-encoded one for one: {show(p.val)}")
                    continue
                new = snap["register_values"].args
                src, final = {}, {}
                for i in range(n):
                    j = base + i - lo
                    if 0 <= j < cnt:
                        src[i] = {vals[j]}
                        final[i] = new[j] if new[j] != vals[j] else None
                for j in range(cnt):
                    if not base <= lo + j < base + n and new[j] != vals[j]:
                        chk.violation("clobbered", f"{typ}({base})", w, f"redaction rewrites {typ}({lo + j}), which belongs to no identifier")
                if len(final) < n and typ != "MR":
                    if any(v is not None for v in final.values()):
                        chk.violation("clobbered", f"{typ}({base})", w, "an incomplete group is rewritten")
                    else:
                        chk.ok("frame-groups: incomplete group left")
                    continue
                if final:
                    judge_group(chk, I, p.st, g, src, final, "frame-groups", w)


# ----------------------------------------------------------------------- LAN
def zeroing(I, t):
    """A substitution that replaces every digit."""
    if t.op != "call":
        return False
    n, b, _ = callee_of(t.args[0])
    if (n or "").split(".")[-1] != "sub":
        return False
    args = list(t.args[1])
    pat = pattern_text(I, b) if b is not None else None
    if pat is None and args:
        pat, args = pattern_text(I, args[0]), args[1:]
    if pat is None or not args or args[0] not in (K("0"), K(b"0")):
        return False
    digits = "0123456789" if isinstance(pat, str) else b"0123456789"
    return len(args) == 2 and all(re.fullmatch(pat, digits[i : i + 1]) for i in range(10))


def lan(chk, I):
    ci = I.cls("pdu.lan_config:LanConfigBroadcast")
    fn = I.method(ci, "redact")
    chk.require(fn is not None, "LanConfigBroadcast.redact")
    w = chk.loc(I, fn)
    me = Term("param", "self")
    I.types[me] = ("cls", ci)
    I.policy = RedactPolicy(I)
    for p in chk.explore(I, fn, {"self": me}):
        if p.kind != "return":
            chk.violation("lan-config", "LanConfigBroadcast.redact", w, f"raises {show(p.val)}")
            continue
        if p.val.op != "ref" or I.hget(p.st, p.val).kind != "inst":
            chk.violation("lan-config", "LanConfigBroadcast.redact", w, f"returns {show(p.val)}, not a redacted copy")
            continue
        data = I.hget(p.st, p.val).data
        for n in IDS:
            if n == "inverter_serial_number":
                continue
            v = data.get(n)
            if v is None:
                raise AnalysisError(f"{n} of the redacted LAN configuration does not resolve")
            src = {x for x in subterms(v) if x.op == "attr" and x.args[0] == me and x.args[1] in IDS}
            if lan_dirty(I, v, src):
                chk.violation("lan-config", "LanConfigBroadcast.redact", w, f"{n} of the redacted copy carries {show(sorted(src, key=show)[0])} as it is: {show(v)[:160]}")
            else:
                chk.ok("LAN configuration fields redacted", n)


def lan_dirty(I, t, sources):
    if t in sources:
        return True
    if t.op == "call" and (callee_of(t.args[0])[0] == "redact_serial_strict" or zeroing(I, t)):
        return False
    for a in t.args:
        if isinstance(a, Term) and lan_dirty(I, a, sources):
            return True
        if isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term) and lan_dirty(I, b, sources):
                    return True
                if isinstance(b, tuple) and any(isinstance(c, Term) and lan_dirty(I, c, sources) for c in b):
                    return True
    return False


# --------------------------------------------------------------------- plant
def plant(chk, I):
    ci = I.cls("model.plant:Plant")
    chk.require(ci is not None, "model.plant:Plant")
    fn = I.method(ci, "redact")
    chk.require(fn is not None, "Plant.redact")
    w = chk.loc(I, fn)
    me = Term("param", "self")
    I.types[me] = ("cls", ci)
    I.policy = RedactPolicy(I, opaque=("redact_serials",))
    ids = {n.target.id for n in ci.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and "serial" in n.target.id}
    chk.require(len(ids) >= 2, "the serial number fields of Plant")
    for p in chk.explore(I, fn, {"self": me}):
        if p.kind != "return":
            chk.violation("plant", "Plant.redact", w, f"raises {show(p.val)}")
            continue
        v = p.val
        n, b, _ = callee_of(v.args[0]) if v.op == "call" else (None, None, None)
        if n != "model_copy" or b != me:
            raise AnalysisError(f"what Plant.redact() returns does not resolve to a copy with updates: {show(v)[:120]}")
        upd = dict(v.args[2]).get("update") or (v.args[1][0] if v.args[1] else None)
        o = I.hget(p.st, upd) if upd is not None and upd.op == "ref" else None
        if o is None or o.kind != "dict" or not o.exact or not all(is_k(k) for k, _ in o.data):
            raise AnalysisError("the updates of the redacted plant do not resolve")
        got = {kval(k): x for k, x in o.data}
        for n in sorted(ids):
            x = got.get(n)
            src = Term("attr", me, n, 0)
            if x is None or dirty_plant(x, n, me):
                chk.violation("plant", "Plant.redact", w, f"{n} of the redacted plant is {'kept' if x is None else show(x)}, not the fail-closed redaction")
            else:
                chk.ok("plant serials redacted", n)
        caches(chk, I, p, got.get("register_caches"), me, w)


def dirty_plant(x, n, me):
    src = {y for y in subterms(x) if y.op == "attr" and y.args[0] == me}
    return dirty(x, src, ("redact_serial_strict",))


def caches(chk, I, p, x, me, w):
    if x is None:
        chk.violation("plant", "Plant.redact", w, "the register caches of the redacted plant are those of the original")
        return
    vals = None
    if x.op == "ref" and I.hget(p.st, x).kind == "dict":
        vals = list(I.hget(p.st, x).data)
        flt = None
    if vals is None:
        raise AnalysisError(f"the register caches of the redacted plant do not resolve: {show(x)}")
    if not vals:
        # the collection is known empty on this path
        if any(b is False and "register_caches" in show(f) for f, b in p.st.facts.items()):
            return
        chk.violation("plant", "Plant.redact", w, "the redacted plant has no register caches")
        return
    for k, v in vals:
        ok = v.op == "call" and callee_of(v.args[0])[0] == "redact_serials"
        if not ok:
            chk.violation("plant", "Plant.redact", w, f"a register cache of the redacted plant is {show(v)}, not its redaction")
        else:
            chk.ok("plant caches redacted")


MINIMUMS = [
    ("redacted shapes", 2),
    ("strict: blank", 1),
    ("identifier groups known", MIN_GROUPS),
    ("cache: redacted", MIN_GROUPS - 2),
    ("cache: identifier blanked", 1),
    ("frame-groups: redacted", MIN_GROUPS - 2),
    ("frame-groups: identifier blanked", 1),
    ("rx envelope serials redacted", 4),
    ("tx envelope serials redacted", 4),
    ("LAN configuration fields redacted", 5),
    ("plant serials redacted", 2),
    ("plant caches redacted", 1),
]
