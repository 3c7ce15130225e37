"""Device attributes: the decoding of a register table entry as paths over its registers, and the documented value of each kind."""
from __future__ import annotations

import ast
import datetime as dt

from .core import K, NONE, AnalysisError, Term, is_k, kval, show
from .evalterm import Unknown, value
from .events import callee_of
from .lut import conv_name
from .plantworld import World, WorldPolicy, known_int

TEXT = ("string", "serial", "gateway_version")


# ------------------------------------------------------------------ the program's side
class Bad(Exception):
    """The expression raises."""


class IntMember(int):
    name = None


class StrMember(str):
    name = None


def member(v, name):
    m = IntMember(v) if isinstance(v, int) else StrMember(v)
    m.name = name
    return m


class AttrPolicy(WorldPolicy):
    """Enumerations, dates and times are built or refused according to their argument."""

    unroll = 200

    def __init__(self, dec):
        super().__init__(dec.I)
        self.dec = dec

    def on_call(self, interp, callee, args, kwargs, st, node):
        n, base, _ = callee_of(callee)
        t = None
        if n == "isinstance" and len(args) == 2 and args[0] in self.dec.cells and args[1].op == "ext":
            return [(st, K(args[1].args[0] == "int"))]
        if callee.op == "cls" and callee.args[0].is_enum and len(args) == 1 and not kwargs:
            t = Term("call", callee, tuple(args), (), None)
            interp.types.setdefault(t, ("cls", callee.args[0]))
            if args[0].op == "enum" and args[0].args[0] is callee.args[0]:
                return [(st, args[0])]
        elif callee.op == "ext" and callee.args[0] in ("datetime.time", "datetime.datetime", "datetime.date"):
            t = Term("call", callee, tuple(args), tuple(sorted(kwargs.items())), None)
        if t is not None:
            ok, bad = st.copy(), st.copy()
            if callee.op == "ext":
                ok.facts = {**ok.facts, t: True, Term("cmp", "is", t, NONE): False}
            try:
                v = self.dec.evaluate(t, {}, st)
            except Bad:
                ok = None
            except Unknown:
                ok.facts = {**ok.facts, Term("valid", t): True}
                bad.facts = {**bad.facts, Term("valid", t): False}
            else:
                bad = None
                if isinstance(v, (IntMember, StrMember)):
                    t = Term("enum", callee.args[0], v.name)
            if bad is not None:
                interp.raise_(bad, interp.exc_term("ValueError", note=interp.where(node)), node)
            return [(ok, t)] if ok is not None else []
        return super().on_call(interp, callee, args, kwargs, st, node)


class Decoder:
    def __init__(self, chk, I):
        self.chk, self.I = chk, I
        self.miss = {}
        self.cells = set()
        self.memo = {}
        self.get = I.func("model.register:RegisterGetter.get")
        chk.require(self.get is not None, "RegisterGetter.get")

    def paths(self, ci, name, cells, default=NONE):
        """Paths of get(name) on a cache of these cells ({(space, index): value term})."""
        I = self.I
        w = World(I, {})
        for v in cells.values():
            if not is_k(v):
                self.cells.add(v)
                known_int(I, w.st, v, 0)
        g = w.inst(ci.module.name.replace("givenergy_modbus.", "") + ":" + ci.qual.split(":")[-1], _obj=w.dict([(w.reg(t, i), v) for (t, i), v in cells.items()]))
        old = I.policy
        I.policy = AttrPolicy(self)
        I.stats["steps"] = 0
        try:
            out = list(self.chk.explore(I, I.method(ci, "get") or self.get, {"self": g, "key": K(name), "default": default}, st=w.st))
        finally:
            I.policy = old
        return [(p, [(x, b) for x, b in p.st.facts.items() if w.st.facts.get(x) != b]) for p in out]

    # ------------------------------------------------------------ evaluation
    def evaluate(self, t, env, st):
        e = dict(env)
        e["hook"] = self.hook(st)
        return self.plain(value(t, e), e, st)

    def plain(self, v, e, st):
        return v

    def hook(self, st):
        def h(t, val):
            op = t.op
            if op == "enum":
                v = t.args[0].keywords.get(("member", t.args[1]))
                if v is None or not is_k(v) or isinstance(kval(v), float) or not isinstance(kval(v), (int, str)):
                    raise Unknown
                return member(kval(v), t.args[1])
            if op == "valid":
                try:
                    val(t.args[0])
                except Bad:
                    return False
                return True
            if op == "fstr":
                return "".join(str(val(x)) if x.op != "fmt" else val(x) for x in t.args)
            if op == "fmt":
                x = val(t.args[0])
                conv, spec = t.args[1], t.args[2]
                conv, spec = (kval(y) if isinstance(y, Term) and is_k(y) else y for y in (conv, spec))
                if isinstance(spec, Term):
                    spec = val(spec)
                x = {-1: lambda z: z, 115: str, 114: repr, 97: ascii}[conv](x)
                return format(int(x) if isinstance(x, IntMember) else x, spec or "")
            if op == "ref":
                o = self.I.hget(st, t)
                if o.kind == "list" and o.exact:
                    return [val(x) for x in o.data]
                if o.kind == "inst" and o.cls is not None:
                    return (o.cls.name, tuple(sorted((k, val(x)) for k, x in o.data.items() if x is not None)))
                if o.kind == "dict" and o.exact:
                    return {val(k): val(x) for k, x in o.data}
                raise Unknown
            if op == "isinstance":
                cs = t.args[1].args if t.args[1].op == "or" else (t.args[1],)
                ks = [{"int": int, "str": str, "bytes": bytes, "float": float, "bool": bool}.get(c.args[0]) if c.op == "ext" else None for c in cs]
                if None in ks:
                    raise Unknown
                return isinstance(val(t.args[0]), tuple(ks))
            if op == "call":
                f = t.args[0]
                if f.op == "cls" and f.args[0].is_enum:
                    return self.enum(f.args[0], val(t.args[1][0]))
                if f.op in ("ext", "name"):
                    n = str(f.args[0])
                    if n in ("datetime.time", "datetime.datetime", "datetime.date"):
                        a, kw = [val(x) for x in t.args[1]], {k: val(x) for k, x in t.args[2]}
                        try:
                            return getattr(dt, n.split(".")[1])(*a, **kw)
                        except (ValueError, TypeError, OverflowError):
                            raise Bad from None
                    if n == "round":
                        return round(*(val(x) for x in t.args[1]))
                    if n == "float":
                        return float(val(t.args[1][0]))
                    if n == "int":
                        a = [val(x) for x in t.args[1]]
                        try:
                            return int(*a)
                        except ValueError:
                            raise Bad from None
            return NotImplemented

        return h

    def enum(self, ci, x):
        key = (ci, type(x).__name__, x)
        if key not in self.memo:
            self.memo[key] = self._enum(ci, x)
        if self.memo[key] is Bad:
            raise Bad
        return self.memo[key]

    def _enum(self, ci, x, depth=0):
        for n in ci.enum_members:
            v = ci.keywords.get(("member", n))
            if v is not None and is_k(v) and kval(v) == x:
                return member(kval(v), n)
        if ci not in self.miss:
            m = self.I.method(ci, "_missing_")
            if m is None:
                self.miss[ci] = None
            else:
                old = self.I.policy
                self.I.policy = AttrPolicy(self)
                try:
                    self.miss[ci] = list(self.chk.explore(self.I, m, {"cls": Term("cls", ci), "value": Term("param", "enum_value")}))
                finally:
                    self.I.policy = old
        if self.miss[ci] is None:
            return Bad
        env = {Term("param", "enum_value"): x}
        for p in self.miss[ci]:
            if self.holds(p.st.facts.items(), env, p.st) is not True:
                continue
            if p.kind != "return":
                return Bad
            v = self.evaluate(p.val, env, p.st)
            return v if isinstance(v, (IntMember, StrMember)) else Bad
        raise Unknown

    def holds(self, facts, env, st):
        """Whether the facts hold at this point: True, False or None (undecided)."""
        res = True
        for x, b in facts:
            try:
                if bool(self.evaluate(x, env, st)) is not bool(b):
                    return False
            except Unknown:
                res = None
            except Bad:
                return False
        return res

    def at(self, paths, env, quick=None):
        """[(kind, value)] the attribute may be at this point (one entry when the paths are exact)."""
        out = []
        for i, (p, facts) in enumerate(paths):
            if quick is not None and quick[i] is not None:
                r = quick[i](*env.values())
                if r is not MISS:
                    out.append(("value", r, True))
                continue
            h = self.holds(facts, env, p.st)
            if h is False:
                continue
            if p.kind != "return":
                out.append(("raise", show(p.val)[:60], h))
                continue
            try:
                out.append(("value", self.evaluate(p.val, env, p.st), h))
            except Bad:
                out.append(("raise", show(p.val)[:60], h))
            except Unknown:
                out.append(("unknown", show(p.val)[:60], h))
        return out


# ------------------------------------------------------------------ arithmetic paths as functions
MISS = object()
OPS = {"eq": "==", "lt": "<", "le": "<=", "is": "is", "in": "in"}


def source(t, names):
    """Python source of an arithmetic term, or None."""
    if t in names:
        return names[t]
    if is_k(t) and (kval(t) is None or isinstance(kval(t), (int, float, str))):
        return repr(kval(t))
    if t.op == "kset":
        xs = [source(x, names) for x in t.args[0]]
        return None if None in xs else "(" + "".join(x + "," for x in xs) + ")"
    if t.op in ("bin", "cmp"):
        a, b = source(t.args[1], names), source(t.args[2], names)
        o = t.args[0] if t.op == "bin" else OPS.get(t.args[0])
        return None if a is None or b is None or o is None else f"({a} {o} {b})"
    if t.op == "not":
        a = source(t.args[0], names)
        return None if a is None else f"(not {a})"
    if t.op in ("un", "unary") and len(t.args) == 2:
        a = source(t.args[1], names)
        return None if a is None else f"({t.args[0]} {a})"
    if t.op == "call" and t.args[0].op in ("ext", "name") and t.args[0].args[0] in ("int", "round", "bool", "float", "abs") and not t.args[2]:
        xs = [source(x, names) for x in t.args[1]]
        return None if None in xs else f"{t.args[0].args[0]}({', '.join(xs)})"
    return None


def quick(paths, params):
    """For each path a function of the registers (MISS where its condition fails), or None if it is not plain arithmetic."""
    names = {p: f"x{i}" for i, p in enumerate(params)}
    out = []
    for p, facts in paths:
        cs = [source(x, names) for x, _ in facts]
        v = source(p.val, names) if p.kind == "return" else None
        if v is None or None in cs:
            out.append(None)
            continue
        cond = " and ".join(f"bool({c}) is {bool(b)}" for c, (_, b) in zip(cs, facts)) or "True"
        out.append(eval(f"lambda {', '.join(names.values())}: {v} if {cond} else MISS", {"MISS": MISS}))
    return out


# ------------------------------------------------------------------ the documented side


def expected(spec, regs, enums, tables):
    """The documented value: spec = {"pre": [kind, *args], "post": [...], "min", "max"}."""
    v = PRE[spec["pre"][0]](list(regs), *spec["pre"][1:], **({"tables": tables} if spec["pre"][0] == "_inverter_fault_code2" else {})) if spec["pre"] else list(regs)
    post = spec["post"]
    if post:
        k, a = post[0], post[1:]
        if k in enums:
            m = enums[k]["members"].get(str(v))
            if m is None and enums[k].get("by_first") and isinstance(v, str) and len(v) > 1:
                m = enums[k]["members"].get(v[0])
            if m is None:
                m = enums[k]["missing"]
            v = None if m is None else ("member", m)
            if v is None:
                return None
        elif k in tables:
            v = [n for i, n in enumerate(tables[k]) if n is not None and v >> i & 1]
        else:
            v = POST[k](v, *a)
    lo, hi = spec["min"], spec["max"]
    if v is not None and (lo is not None or hi is not None) and any(regs):
        if lo is not None and v < lo or hi is not None and v > hi:
            return None
    return v


def s16(x):
    return x - 0x10000 if x & 0x8000 else x


def u32(r):
    return r[0] * 65536 + r[1]


def s32(r):
    x = u32(r)
    return x - (1 << 32) if x >> 31 else x


def text(r):
    return "".join(chr(b) for x in r for b in (x >> 8, x & 255) if b).upper()


def clock(x):
    h, m = divmod(x, 100)
    return dt.time(h, m) if h < 24 and m < 60 else None


def slot(r):
    a, b = clock(r[0]), clock(r[1])
    return None if a is None or b is None else ("TimeSlot", (("end", b), ("start", a)))


def date(r):
    try:
        return dt.datetime(2000 + r[0], *r[1:])
    except ValueError:
        return None


def gateway(r):
    return "".join(chr(b) for x in r[:2] for b in (x >> 8, x & 255) if b) + "".join(str(b) for x in r[2:] for b in (x >> 8, x & 255))


PRE = {
    "uint16": lambda r: r[0],
    "int16": lambda r: s16(r[0]),
    "duint8": lambda r, i: r[0] // 256 if i == 0 else r[0] % 256,
    "uint32": u32,
    "int32": s32,
    "deci": lambda r: r[0] / 10,
    "centi": lambda r: r[0] / 100,
    "milli": lambda r: r[0] / 1000,
    "bool": lambda r: r[0] != 0,
    "string": text,
    "serial": text,
    "hex": lambda r, w=4: format(r[0], "x").rjust(w, "0"),
    "firmware_version": lambda r: "D0." + str(r[0]) + "-A0." + str(r[1]),
    "timeslot": slot,
    "datetime": date,
    "pf": lambda r: round(r[0] / 10000 - 1, 4),
    "pf_signed": lambda r: s16(r[0]) / 10000,
    "nominal_voltage": lambda r: {0: 230, 1: 208, 2: 240}.get(r[0]),
    "nominal_frequency": lambda r: {0: 50, 1: 60}.get(r[0]),
    "bitfield": lambda r, lo, hi: int(format(r[0], "016b")[lo : hi + 1], 2),
    "gateway_version": gateway,
    "_inverter_fault_code2": lambda r, w, tables=None: [n for i, n in enumerate(tables[f"_inverter_fault_code2:{w}"]) if n is not None and r[0] >> i & 1],
}  # fmt: skip
POST = {
    "deci": lambda v: v / 10,
    "centi": lambda v: v / 100,
    "milli": lambda v: v / 1000,
    "hex": lambda v, w=4: format(v, "x").rjust(w, "0"),
    "fstr": lambda v, f: format(v, f),
    "negate": lambda v: -v,
    "bool": lambda v: v != 0,
}  # fmt: skip


def same(got, want):
    """Whether a value of the program is the documented one."""
    if isinstance(want, tuple) and want and want[0] == "member":
        return isinstance(got, (IntMember, StrMember)) and got.name == want[1]
    if want is None or got is None:
        return got is want
    if isinstance(want, bool) or isinstance(got, bool):
        return isinstance(got, bool) and isinstance(want, bool) and got == want
    if isinstance(want, (int, float)):
        return isinstance(got, (int, float)) and abs(got - want) <= 1e-9 * max(1.0, abs(want))
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and sorted(got) == sorted(want)
    return type(got) is type(want) and got == want or isinstance(want, str) and isinstance(got, str) and str(got) == want


def kind(I, conv, args):
    """[name, args...] of a converter slot."""
    if conv is None:
        return []
    return [conv_name(I, conv).split(".")[-1]] + [kval(a) for a in args]
