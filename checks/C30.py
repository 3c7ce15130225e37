"""Every device attribute decodes its registers to the documented value, for every register content, and never raises."""
import itertools
import json
import os

from sa import lut
from sa.attrmodel import TEXT, Decoder, expected, quick, same
from sa.core import K, NONE, Term, is_k, kval, show
from sa.plantworld import World, WorldPolicy

TITLE = "Device attributes decode their registers exactly and never raise"
RULE = (
    "The register tables are evaluated from the source: every documented attribute of every device must be there. RegisterGetter.get() is explored on a cache that holds the documented registers of the attribute with arbitrary 16-bit "
    "contents (one exploration per distinct converter, bounds and registers; converters that build text or a list of faults are explored on given contents instead). Each path's condition and result are terms over the registers; they are "
    "evaluated at every value of a one-register attribute, and at boundary values (of the sign, the bounds, the clock and the calendar) of the others, and compared with the documented value of the kind: scale, sign, word order, bit range, "
    "label, unset outside the bounds unless every register is zero. No path may raise. With any one register missing the attribute is None; an unknown name gives the default; registers_of() and precision_of() tell the documented registers and decimals; build() gives get() of every name in the table."
)
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "spec_attributes.json")
PARTS = 8
EDGE = [0, 1, 2, 3, 9, 10, 31, 32, 59, 60, 61, 99, 100, 160, 255, 256, 999, 1000, 1234, 2359, 2360, 2400, 4095, 10000, 20000, 0x2030, 0x4142, 0x6162, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xB5DF, 0xC3E9, 0xFF00, 0xFFFE, 0xFFFF]
FAULTS = ("_inverter_fault_code", "_gateway_fault_code", "_charger_warning_code", "_inverter_fault_code2")


def check(chk):
    spec = json.load(open(SPEC))
    chk.parallel([lambda i=i: part(chk, spec, i) for i in range(PARTS)] + [lambda: frame(chk)])


def groups(chk, I, T, spec):
    out = {}
    for g, attrs in spec["getters"].items():
        chk.require(g in T, g)
        ci, fields = T[g]
        for name, s in attrs.items():
            f = fields.get(name)
            if f is None:
                out.setdefault(("missing", g), []).append((ci, name, s, None))
                continue
            regs = [(r[:2], int(r[2:])) for r in s["regs"]]
            pattern = tuple(regs.index(r) if r in regs else (r if len(regs) else r) for r in f.regs)
            key = (f.pre, f.pre_args, f.post, f.post_args, pattern, f.min, f.max, json.dumps([s["pre"], s["post"], s["min"], s["max"], len(regs)]), ci.lookup("get")[0])
            out.setdefault(key, []).append((ci, name, s, f))
    return out


def part(chk, spec, n):
    I = chk.interp()
    T = lut.tables(I)
    gs = groups(chk, I, T, spec)
    dec = Decoder(chk, I)
    for i, (key, members) in enumerate(gs.items()):
        if i % PARTS != n:
            continue
        if key[0] == "missing":
            for ci, name, s, _ in members:
                chk.violation("attribute-missing", f"{ci.name}.{name}", ci.module.path, f"the documented attribute {name} ({', '.join(s['regs'])}) of {ci.name} is gone from its register table")
            continue
        ci, name, s, f = members[0]
        who = f"{ci.name}.{name}" + (f" and {len(members) - 1} more" if len(members) > 1 else "")
        bad = decode(chk, dec, spec, ci, name, s, f) or absent(chk, dec, ci, name, s) or described(chk, dec, ci, name, s)
        if bad is not None:
            rule, msg = bad
            chk.violation(rule, f"{ci.name}.{name}", chk.loc(I, dec.get), f"{who}: {msg}")
        for _ in members:
            chk.count("attributes")
        chk.ok("distinct decodings", who)


def points(s, n):
    """Register contents to compare at."""
    k = (s["pre"] or [""])[0]
    if n == 1:
        return [(v,) for v in (EDGE if k in TEXT else range(65536))]
    cand = list(EDGE)
    for b in (s["min"], s["max"]):
        if b is not None:
            for m in (1, 10, 100, 1000):
                for d in (-1, 0, 1):
                    v = int(b * m) + d
                    cand += [v & 0xFFFF, v >> 16 & 0xFFFF]
    cand = sorted(set(cand))
    if k == "datetime":
        return list(itertools.product([0, 24, 99, 7999, 8000, 65535], [0, 1, 2, 4, 12, 13], [0, 1, 28, 29, 30, 31, 32], [0, 23, 24, 60], [0, 59, 60], [0, 59, 60])) + [(24, 2, 29, 0, 0, v) for v in EDGE]
    if n == 2:
        pts = list(itertools.product(cand, cand))
        if k == "timeslot":
            pts += [(v, 2359) for v in range(65536)] + [(0, v) for v in range(65536)]
        return pts
    pts = [tuple(b for _ in range(n)) for b in EDGE]
    for i in range(n):
        for b in (0x4142, 0):
            pts += [tuple(v if j == i else b for j in range(n)) for v in EDGE]
    return pts


def fault_points(n):
    w = 16 * n
    vals = [0, (1 << w) - 1] + [1 << b for b in range(w)] + [3 << b for b in range(w - 1)] + [((1 << w) - 1) ^ (1 << b) for b in range(w)]
    return [tuple(v >> 16 * (n - 1 - i) & 0xFFFF for i in range(n)) for v in vals]


def decode(chk, dec, spec, ci, name, s, f):
    regs = [(r[:2], int(r[2:])) for r in s["regs"]]
    rs = [Term("param", f"r{i}") for i in range(len(regs))]
    others = [r for r in f.regs if r not in regs]
    fault = (s["pre"] or [""])[0] in FAULTS or (s["post"] or [""])[0] in FAULTS
    given = fault or (s["pre"] or [""])[0] in TEXT
    pts = fault_points(len(regs)) if fault else points(s, len(regs))
    chk.count("register contents compared", len(pts))
    paths = None
    if not given:
        cells = dict(zip(regs, rs))
        cells.update({r: Term("param", f"other_{r[0]}{r[1]}") for r in others})
        paths = dec.paths(ci, name, cells)
        chk.count("paths", len(paths))
        if not paths:
            return "no-value", f"get({name!r}) never returns"
        fast = quick(paths, list(cells.values()))
    for pt in pts:
        if given:
            ps = dec.paths(ci, name, {**dict(zip(regs, map(K, pt))), **{r: K(0x5A5A) for r in others}})
            chk.count("paths", len(ps))
            got = dec.at(ps, {})
        else:
            env = dict(zip(rs, pt))
            env.update({Term("param", f"other_{r[0]}{r[1]}"): 0x5A5A for r in others})
            got = dec.at(paths, env, fast)
        want = expected(s, pt, spec["enums"], spec["tables"])
        at = ", ".join(f"{r}={v:#06x}" for r, v in zip(s["regs"], pt))
        if not got:
            return "no-value", f"get({name!r}) gives nothing with {at}"
        for how, v, sure in got:
            if how == "raise":
                if sure is True:
                    return "decode-raises", f"get({name!r}) raises {v} with {at}"
                chk.require(False, f"{ci.name}.{name}: a path that raises under a condition outside the fragment ({v})")
            chk.require(how == "value", f"{ci.name}.{name}: result outside the fragment: {v}")
            if not same(v, want):
                chk.require(sure is True, f"{ci.name}.{name}: a path under a condition outside the fragment")
                return "wrong-value", f"get({name!r}) is {text(v)} with {at}, documented as {text(want)} ({' '.join(map(str, s['pre'] + s['post'])) or 'raw'}, bounds {s['min']}..{s['max']})"
    return None


def text(v):
    if isinstance(v, tuple) and v and v[0] == "member":
        return v[1]
    return getattr(v, "name", None) or repr(v)


def absent(chk, dec, ci, name, s):
    """With any one of its registers missing an attribute is None."""
    regs = [(r[:2], int(r[2:])) for r in s["regs"]]
    for gone in regs:
        cells = {r: K(0) for r in regs if r != gone}
        got = dec.at(dec.paths(ci, name, cells), {})
        if any(how != "value" or v is not None for how, v, _ in got) or not got:
            return "absent-register", f"get({name!r}) with {gone[0]}{gone[1]} not cached: {', '.join(f'{h} {text(v)}' for h, v, _ in got)} instead of None"
        chk.count("absent registers")
    return None


DECIMALS = {"pf": 4, "pf_signed": 4, "milli": 3, "centi": 2, "deci": 1, "uint16": 0, "int16": 0, "uint32": 0, "int32": 0, "duint8": 0, "bitfield": 0, "negate": 0}


def described(chk, dec, ci, name, s):
    """registers_of() and precision_of() tell which registers an attribute is made of and how many decimals it has."""
    I = dec.I
    for method, want in (("registers_of", [(r[:2], int(r[2:])) for r in s["regs"]]), ("precision_of", DECIMALS.get((s["post"] or s["pre"] or [""])[0]))):
        fn = I.method(ci, method)
        chk.require(fn is not None, f"RegisterGetter.{method}")
        I.policy = WorldPolicy(I)
        for p in chk.explore(I, fn, {"cls": Term("cls", ci), "name": K(name)}):
            if p.kind != "return":
                return "description", f"{method}({name!r}) raises {show(p.val)}"
            got = p.val
            if method == "registers_of":
                items = got.args if got.op == "tup" else I.hget(p.st, got).data if got.op == "ref" and I.hget(p.st, got).kind == "list" else None
                got = [lut.reg_of(I, r) for r in items] if items is not None else None
            else:
                got = None if got == NONE else kval(got) if is_k(got) else got
            if got != want:
                return "description", f"{method}({name!r}) is {got if not isinstance(got, Term) else show(got)}, documented as {want}"
            chk.count("descriptions")
    return None


def frame(chk):
    """An unknown name gives the default, and build() gives get() of every name."""
    I = chk.interp()
    T = lut.tables(I)
    dec = Decoder(chk, I)
    small = min(T, key=lambda n: len(T[n][1]))
    for g, (ci, fields) in T.items():
        d = Term("param", "the_default")
        ps = dec.paths(ci, "no such attribute", {}, default=d)
        if [(p.kind, p.val) for p, _ in ps] != [("return", d)]:
            chk.violation("unknown-name", f"{g}.get", chk.loc(I, dec.get), f"get() of an unknown name with a default gives {', '.join(p.kind + ' ' + show(p.val) for p, _ in ps)} instead of the default")
        chk.count("unknown names")
    ci, fields = T[small]
    build = I.method(ci, "build")
    chk.require(build is not None, "RegisterGetter.build")
    w = World(I, {})
    g = w.inst(ci.module.name.replace("givenergy_modbus.", "") + ":" + ci.qual.split(":")[-1], _obj=w.dict([]))
    I.policy = Build(I)
    for p in chk.explore(I, build, {"self": g}, st=w.st):
        o = I.hget(p.st, p.val) if p.kind == "return" and p.val.op == "ref" else None
        data = dict(o.data) if o is not None and o.kind == "dict" else None
        if data is None or set(data) != {K(n) for n in fields} or any(v != got(n) for n, v in data.items()):
            chk.violation("build-differs", f"{small}.build", chk.loc(I, build), f"build() does not give get() of every attribute of the table: {show(p.val)}")
        chk.ok("build", f"{len(fields)} attributes of {small}")


def got(n):
    return Term("call", Term("name", "the_value_of"), (n,), (), None)


class Build(WorldPolicy):
    def on_call(self, interp, callee, args, kwargs, st, node):
        fn = callee.args[0] if callee.op in ("fn", "bm") else None
        fn = fn.args[0] if isinstance(fn, Term) and fn.op == "fn" else fn
        if getattr(fn, "name", None) == "get" and getattr(fn, "cls", None) is not None:
            a = args[1:] if callee.op == "fn" else args
            if len(a) == 1 and not kwargs or not a and set(kwargs) == {"key"}:
                return [(st, got(a[0] if a else kwargs["key"]))]
        return super().on_call(interp, callee, args, kwargs, st, node)


MINIMUMS = [("attributes", 1200), ("distinct decodings", 90), ("build", 1)]
