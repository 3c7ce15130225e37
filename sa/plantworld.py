"""A plant of known shape with unknown contents: Plant's methods are explored on it and judged by the state they leave."""
from __future__ import annotations

import ast
import hashlib

from .clientmodel import ClientPolicy, Ev
from .core import K, NONE, Term, is_k, kval, show
from .events import loops, receiver_and_args
from .interp import H, State

PLANT = "model.plant:Plant"
GUARDS = ("_splice_guard", "is_coherent", "validate_bank", "is_internally_impossible", "_splice_burst_note_commit", "_getter_for_device_address")


class WorldPolicy(ClientPolicy):
    """The package's own code is followed, except for the functions named; a RegisterCache is a dict."""

    max_depth = 14
    max_states = 60000

    def __init__(self, I, opaque=(), truth=None):
        super().__init__(I, opaque=set(opaque))
        self.truth = truth or {}
        self.cache = I.cls("model.register_cache:RegisterCache")

    def inline(self, fn, interp, st):
        if fn.name in self.opaque:
            return False
        return fn.module.name.startswith("givenergy_modbus.") and fn.name not in ("__str__", "__repr__")

    def on_call(self, interp, callee, args, kwargs, st, node):
        if callee.op == "cls" and callee.args[0] is self.cache and set(kwargs) == {"registers"} and not args:
            args, kwargs = [kwargs["registers"]], {}
        if callee.op == "cls" and callee.args[0] is self.cache and not kwargs and len(args) <= 1:
            o = interp.hget(st, args[0]) if args and args[0].op == "ref" else None
            if not args or args[0] == NONE or o is not None and o.kind == "dict":
                st = st.copy()
                return [(st, interp.alloc(st, H("dict", None, o.data if o is not None else (), o.exact if o is not None else True, "zeros")))]
        name, base, rest = receiver_and_args(callee, args)
        short = name.split(".")[-1] if name else name
        if short in self.opaque:
            fn = callee.args[0] if callee.op == "fn" else callee.args[0].args[0] if callee.op == "bm" else None
            key = tuple(self.freeze(interp, st, a) for a in args)
            res = Term("call", Term("name", short), (base if base is not None else NONE,) + key, tuple(sorted((k, self.freeze(interp, st, v)) for k, v in kwargs.items())), interp.uid(node))
            st = st.emit(Ev(short, base, rest, kwargs, node, loops(interp.ctx), fn, res))
            if short in self.truth:
                st.facts = {**st.facts, res: self.truth[short]}
            return [(st, res)]
        if short == "total_seconds" and base is not None and (base.op == "gap" or is_k(base) and isinstance(kval(base), (int, float))):
            return [(st, base)]
        if short == "timedelta" and not args and set(kwargs) <= {"seconds", "minutes"} and all(is_k(v) for v in kwargs.values()):
            return [(st, K(sum(kval(v) * (60 if k == "minutes" else 1) for k, v in kwargs.items())))]
        if callee.op == "ext" and callee.args[0] == "hash" and len(args) == 1:
            key = interp.ckey(st, args[0])
            if key is not None:
                return [(st, K(int(hashlib.sha256(repr(ordered(key)).encode()).hexdigest()[:15], 16)))]
        if short == "replace" and base is not None and is_time(base) and set(kwargs) == {"tzinfo"} and not args[1 if callee.op != "bm" and args[:1] == [base] else 0:]:
            t = Term("call", Term("name", "replace"), (base,), tuple(kwargs.items()), None)
            st = st.copy()
            known_time(st, t)
            return [(st, t)]
        if short == "now" or name in ("datetime.now", "datetime.datetime.now"):
            t = Term("call", Term("name", "now"), tuple(args), tuple(sorted(kwargs.items())), interp.uid(node))
            st = st.copy()
            known_time(st, t, bool(args or kwargs))
            return [(st, t)]
        if callee.op == "ext" and callee.args[0] in ("max", "min", "sorted") and args and not set(kwargs) & {"key", "reverse"}:
            seq, exact = interp._seq_items(args[0], st) or (None, False) if len(args) == 1 else (list(args), True)
            if seq is None and len(args) == 1:
                seq, exact = interp.items_of(args[0], st), True
            if seq == [] and exact and "default" in kwargs:
                return [(st, kwargs["default"])]
            if seq and exact and all(is_time(x) for x in seq):
                rank = {x: sum(interp.known(st, Term("cmp", "lt", y, x)) is True for y in seq) for x in seq}
                if all(interp.known(st, Term("cmp", "lt", y, x)) is not None for x in seq for y in seq if x != y):
                    order = sorted(seq, key=rank.get)
                    if callee.args[0] != "sorted":
                        return [(st, order[-1 if callee.args[0] == "max" else 0])]
                    st = st.copy()
                    return [(st, interp.alloc(st, H("list", None, tuple(order), True)))]
        return None

    def bin_value(self, interp, op, a, b, st):
        """The difference of two points in time is a number of seconds."""
        if op == "-" and is_time(a) and is_time(b):
            return gap(interp, a, b)
        return None

    def freeze(self, I, st, v):
        """Heap contents at the time of the call, so that facts about the result do not depend on later changes."""
        if v.op == "ref":
            o = I.hget(st, v)
            if o.kind == "dict":
                return Term("dictof", *(tuple(x for kv in o.data for x in kv)))
            if o.kind in ("list", "set"):
                return Term("seqof", o.kind, *o.data)
        return v

    def may_raise(self, interp, callee, args, kwargs, st, node):
        return ()


def ordered(key):
    """A structural key with its sets in a fixed order."""
    if isinstance(key, frozenset):
        return ("set", *sorted((ordered(x) for x in key), key=repr))
    return tuple(ordered(x) for x in key) if isinstance(key, tuple) else key


class World:
    """A plant object: caches {address: {(type, index): Term}}, every other dict empty unless given."""

    def __init__(self, I, caches, caps=NONE, defaults=False, **fields):
        self.I = I
        self.cls = I.cls(PLANT)
        self.st = State()
        self.regs = {t: I.cls("model.register:" + t) for t in ("HR", "IR", "MR")}
        data = {}
        for name, ann, default in plant_fields(self.cls):
            if defaults and ann.split(" ")[0] in ("int", "float", "bool"):
                if isinstance(default, ast.Call):
                    default = next((k.value for k in default.keywords if k.arg == "default"), None)
                if isinstance(default, ast.Constant):
                    data[name] = K(default.value)
            if ann.startswith("dict"):
                data[name] = self.dict(())
            elif ann.startswith("list"):
                data[name] = I.alloc(self.st, H("list", None, (), True))
        self.caches = {a: I.alloc(self.st, H("dict", None, tuple((self.reg(*k), v) for k, v in c.items()), True, "zeros")) for a, c in caches.items()}
        data["register_caches"] = self.dict(tuple((K(a), r) for a, r in self.caches.items()))
        data["capabilities"] = caps(self) if callable(caps) else caps
        for k, v in fields.items():
            data[k] = self.dict(v) if isinstance(v, tuple) else v
        for k in ("inverter_serial_number", "data_adapter_serial_number"):
            data.setdefault(k, Term("param", "old_" + k))
        self.before = dict(data)
        self.me = I.alloc(self.st, H("inst", self.cls, data, True))

    def dict(self, pairs):
        return self.I.alloc(self.st, H("dict", None, tuple(pairs), True))

    def reg(self, t, i):
        return self.I.alloc(self.st, H("inst", self.regs[t], {"_idx": K(i)}, True))

    def inst(self, cls, **data):
        ci = self.I.cls(cls)
        assert ci is not None, cls
        return self.I.alloc(self.st, H("inst", ci, data, True))

    def list(self, items):
        return self.I.alloc(self.st, H("list", None, tuple(items), True))

    def regkey(self, st, t):
        """('IR', 5) of a register object."""
        if t.op == "ref":
            o = self.I.hget(st, t)
            if o.kind == "inst" and o.cls is not None and o.data.get("_idx") is not None:
                for n, ci in self.regs.items():
                    if o.cls is ci:
                        i = o.data["_idx"]
                        return (n, kval(i) if is_k(i) else i)
        return None

    def freeze(self, st, t, d=0):
        """A value as plain comparable data: dict contents, register keys, tuples."""
        r = self.regkey(st, t)
        if r is not None:
            return ("reg", *r)
        if t.op == "tup":
            return tuple(self.freeze(st, x, d + 1) for x in t.args)
        if is_k(t):
            return kval(t)
        if t.op == "ref" and d < 6:
            o = self.I.hget(st, t)
            if o.kind == "dict":
                out = {}
                for k, v in o.data:
                    out[self.freeze(st, k, d + 1)] = self.freeze(st, v, d + 1)
                if not o.exact:
                    out["?"] = True
                return out
            if o.kind in ("list", "set"):
                return tuple(self.freeze(st, x, d + 1) for x in o.data) + (() if o.exact else ("?",))
        return t

    def state(self, st):
        """{attribute: contents} of the plant in this state."""
        o = self.I.hget(st, self.me)
        return {k: self.freeze(st, v) for k, v in o.data.items() if v is not None and k != "capabilities"}


def plant_fields(ci):
    """(name, annotation text, default expression) of every attribute the class declares."""
    out = []
    for c in ci.repo_mro():
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.append((n.target.id, ast.unparse(n.annotation), n.value))
    return out


def bank(n, tag="v"):
    return [Term("param", f"{tag}{i}") for i in range(n)]


def explored(chk, I, w, fn, args, kwargs=None):
    """Paths of a method on this world."""
    return chk.explore(I, fn, {"self": w.me, **args}, st=w.st)


AT = Term("param", "received_at")


def known_int(I, st, t, lo, hi=65535, nonzero=None):
    """Assume lo <= t <= hi (and t != 0)."""
    I.types[t] = ("ext", "int")
    f = {Term("cmp", "le", K(lo), t): True, Term("cmp", "le", t, K(hi)): True, Term("cmp", "is", t, NONE): False}
    if lo > 0 or nonzero:
        f[Term("cmp", "eq", t, K(0))] = False
        f[Term("cmp", "eq", K(0), t)] = False
        f[t] = True
    st.facts = {**st.facts, **f}


def is_time(t):
    return t.op == "param" and str(t.args[0]).startswith(("received_at", "t_")) or t.op == "call" and t.args[0] in (Term("name", "now"), Term("name", "replace"))


def gap(I, a, b):
    """Seconds from time b to time a."""
    clock = getattr(I, "clock", {})
    t = K(float(clock[a] - clock[b])) if a in clock and b in clock else K(0.0) if a == b else Term("gap", a, b)
    I.types[t] = ("ext", "float")
    return t


def known_time(st, t, aware=True):
    tz = Term("attr", t, "tzinfo", 0)
    st.facts = {**st.facts, t: True, Term("cmp", "is", t, NONE): False, Term("cmp", "is", tz, NONE): not aware, tz: aware}


def known_order(st, clock):
    """Assume the points in time lie as on this clock."""
    f = {}
    for a, x in clock.items():
        for b, y in clock.items():
            if a != b:
                f[Term("cmp", "lt", a, b)] = x < y
                f[Term("cmp", "le", a, b)] = x <= y
                f[Term("cmp", "eq", a, b)] = x == y
    st.facts = {**st.facts, **f}


def response(w, kind, addr, base, values, count=None, **over):
    """A read response ('Input', 'Holding', 'MeterProduct') as decoded: attributes known, register values given."""
    d = dict(
        error=K(False), crc_failed=K(False), device_address=K(addr) if isinstance(addr, int) else addr, base_register=K(base),
        register_count=K(len(values) if count is None else count), register_values=w.list(values),
        data_adapter_serial_number=Term("param", "frame_adapter_serial"), inverter_serial_number=Term("param", "frame_inverter_serial"),
        padding=K(0x8A), check=Term("param", "check"),
    )
    d.update(over)
    return w.inst(f"pdu.read_registers:Read{kind}RegistersResponse", **d)


def changed_fields(before, after):
    return {k: (before.get(k), after.get(k)) for k in after if before.get(k) != after.get(k)}
