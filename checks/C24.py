"""What a poll asks for."""
import ast

from sa.check import facts_str
from sa.clientmodel import Ev, events, loops, receiver_and_args
from sa.core import K, NONE, Term, is_k, kval, show
from sa.interp import H
from sa.plantworld import World, WorldPolicy, known_time, response

TITLE = "refresh() and load_config() ask for exactly the blocks the plant has"
RULE = (
    "refresh() and load_config() are followed for every model, for the firmware versions on both sides of the extended-slot boundary and for empty and filled address lists, down to the requests handed to "
    "execute() (or to the send primitive). The read requests must be, as a multiset, those of an independent table: nothing missing, nothing twice, nothing else, each at the right device address, base and count. "
    "refresh() may leave out a block only if it was marked absent, or if an age limit applies and the block's age is known to be at most that limit; load_config() leaves out none."
)
CLIENT = "client.client:Client"
CAPS = "model.plant:PlantCapabilities"
THREE_PHASE = {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
EMS = {"EMS", "EMS_COMMERCIAL"}
GATEWAY = {"GATEWAY"}
AC_CONFIG = {"AC", "AC_3PH", "ALL_IN_ONE"}
EXTENDED = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3"}
EXTENDED_FROM = {"HYBRID_GEN3": 303}
LIMIT = Term("param", "max_age")
OTHER = Term("param", "ir0_max_age")
T0 = Term("param", "t_commit")

EMPTY = dict(inverter_address=0x11, meter_addresses=[], lv_battery_addresses=[], bcu_stacks=[], aio_battery_module_addresses=[], hv_bmu_addresses=[], lv_bcu_address=None)
FULL = dict(
    inverter_address=0x31, meter_addresses=[1, 5], lv_battery_addresses=[0x32, 0x34], bcu_stacks=[(0, 4), (3, 2)], aio_battery_module_addresses=[0x50, 0x53], hv_bmu_addresses=[0x58], lv_bcu_address=0x40
)
SOME = {**EMPTY, "meter_addresses": [8], "lv_battery_addresses": [0x37], "bcu_stacks": [(1, 0)]}


def span(base, end, step=60):
    return [(b, min(step, end - b)) for b in range(base, end, step)]


def refresh_blocks(model, fw, t):
    inv = t["inverter_address"]
    own = [] if model in EMS else [(0, 60), (180, 60)]
    if model in THREE_PHASE:
        own += span(1000, 1414)
    if model in EMS:
        own.append((2040, 55))
    if model in GATEWAY:
        own += span(1600, 1860)
    out = [(inv, b, c) for b, c in own]
    out += [(a, 60, 60) for a in t["lv_battery_addresses"] + t["aio_battery_module_addresses"] + t["hv_bmu_addresses"]]
    out += [(0x70 + o, 60, 60) for o, _ in t["bcu_stacks"]]
    out += [(a, 60, 30) for a in t["meter_addresses"]]
    if t["lv_bcu_address"] is not None:
        out.append((t["lv_bcu_address"], 60, 60))
    return sorted((a, "IR", b, c) for a, b, c in out)


def config_blocks(model, fw, t):
    out = [("HR", 0, 60)]
    if model not in EMS:
        out += [("HR", 60, 60), ("HR", 120, 60), ("IR", 120, 60)]
    if model in THREE_PHASE:
        out += [("HR", 1000, 60), ("HR", 1060, 60), ("HR", 1120, 5)]
    if model in EXTENDED or model in EXTENDED_FROM and fw is not None and fw >= EXTENDED_FROM[model]:
        out.append(("HR", 240, 60))
    if model in AC_CONFIG:
        out.append(("HR", 300, 60))
    if model in EMS:
        out.append(("HR", 2040, 36))
    return sorted((t["inverter_address"], *b) for b in out)


class ReadPolicy(WorldPolicy):
    """Requests handed to the client's own send paths are recorded, and answered."""

    def on_call(self, interp, callee, args, kwargs, st, node):
        fn = callee.args[0] if callee.op == "fn" else callee.args[0].args[0] if callee.op == "bm" and callee.args[0].op == "fn" else None
        if fn is not None and fn.cls is not None and fn.cls.name == "Client" and fn.name in ("execute", "send_request_and_await_response"):
            name, base, rest = receiver_and_args(callee, args)
            req = rest[0] if rest else next(iter(kwargs.values()), NONE)
            if fn.name != "execute":
                return [(st.emit(Ev("read", base, (req,), {}, node, loops(interp.ctx), fn)), NONE)]
            seq, exact = interp._seq_items(req, st) or (None, False)
            if seq is None or not exact:
                return [(st.emit(Ev("unknown", base, (req,), {}, node, loops(interp.ctx), fn)), NONE)]
            for r in seq:
                st = st.emit(Ev("read", base, (r,), {}, node, loops(interp.ctx), fn))
            return [(st, interp.alloc(st, H("list", None, (NONE,) * len(seq), True)))]
        return super().on_call(interp, callee, args, kwargs, st, node)


class Poll:
    def __init__(self, chk, I, what, model, fw, topology):
        self.chk, self.I, self.what, self.good, self.model, self.fw, self.topology = chk, I, what, True, model, fw, topology
        self.w = World(I, {}, caps=self.capabilities, defaults=True)
        self.client = I.alloc(self.w.st, H("inst", I.cls(CLIENT), {"plant": self.w.me, "connected": K(True), "_connection_lost": K(False)}, False))
        self.truth = {"is_coherent": True, "_splice_guard": True, "is_suspicious": False}

    def capabilities(self, w):
        def heap(v):
            return NONE if v is None else w.list([heap(x) for x in v]) if isinstance(v, list) else Term("tup", *map(heap, v)) if isinstance(v, tuple) else K(v)

        return w.inst(CAPS, device_type=Term("enum", self.I.cls("model.inverter:Model"), self.model), arm_firmware_version=heap(self.fw), **{k: heap(v) for k, v in self.topology.items()})

    def plant(self, name, **args):
        """A call on the plant that goes one way."""
        f = self.I.func("model.plant:Plant." + name)
        self.chk.require(f is not None, "Plant." + name)
        self.I.policy = WorldPolicy(self.I, opaque={*self.truth, "validate_bank"}, truth=self.truth)
        self.I.stats["steps"] = 0
        out = [p for p in self.chk.explore(self.I, f, {"self": self.w.me, **args}, st=self.w.st) if p.kind == "return"]
        self.chk.require(len(out) == 1, f"Plant.{name} goes one way")
        self.w.st = out[0].st

    def absent(self, block):
        a, t, b, c = block
        self.plant("mark_absent", device_address=K(a), reg_type=K(t), base_register=K(b), register_count=K(c))
        return self

    def committed(self, block):
        a, t, b, c = block
        known_time(self.w.st, T0)
        self.plant("update", pdu=response(self.w, "Input" if t == "IR" else "Holding", a, b, [K(7)] * c), received_at=T0)
        return self

    def run(this, method, /, **args):
        """[(path, sorted blocks asked for)]"""
        f = this.I.func(f"{CLIENT}.{method}")
        this.chk.require(f is not None, f"Client.{method}")
        this.at = this.chk.loc(this.I, f)
        this.I.policy = ReadPolicy(this.I, opaque={"warn"})
        this.I.stats["steps"] = 0
        out = []
        for p in this.chk.explore(this.I, f, {"self": this.client, **defaults(f), **args}, st=this.w.st):
            this.chk.count("paths followed")
            if p.kind != "return":
                this.fail("raises", f"{method}() raises {show(p.val)[:80]} ({facts_str(p.st)[:120]})")
                continue
            reqs = [e.args[0] if e.name == "read" else None for e in events(p.st.trace) if e.name in ("read", "unknown")]
            out.append((p, [this.block(p.st, r) for r in reqs]))
        return out

    def block(self, st, r):
        o = self.I.hget(st, r) if r is not None and r.op == "ref" else None
        if o is None or o.kind != "inst" or o.cls is None:
            return ("?", show(r) if r is not None else "an unknown list of requests")
        kind = {"ReadInputRegistersRequest": "IR", "ReadHoldingRegistersRequest": "HR"}.get(o.cls.name)
        vals = [o.data.get(k, NONE) for k in ("device_address", "base_register", "register_count")]
        if kind is None or not all(is_k(v) for v in vals):
            return ("?", f"{o.cls.name}({', '.join(map(show, vals))})")
        a, b, c = map(kval, vals)
        return (a, kind, b, c)

    def fail(self, rule, msg):
        if self.good:
            self.chk.violation(rule, self.what, self.at, f"{self.what}: {msg}")
        self.good = False

    def same(self, got, want, p):
        if sorted(got, key=str) == sorted(want, key=str):
            return
        when = facts_str(p.st)[:120]
        for b in want:
            if got.count(b) < want.count(b):
                return self.fail("not-asked", f"{name(b)} is not asked for ({when})")
        for b in got:
            if got.count(b) > want.count(b):
                rule = "asked-twice" if b in want else "asked-needlessly"
                return self.fail(rule, f"{name(b)} is asked for {'twice' if b in want else 'although the plant does not have it'} ({when})")

    def done(self, kind):
        if self.good:
            self.chk.ok(kind, self.what)


def defaults(fn):
    """What a caller who gives no limit gets."""
    a = fn.node.args
    plain = a.posonlyargs + a.args
    pairs = list(zip(plain[len(plain) - len(a.defaults) :], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return {x.arg: K(d.value) for x, d in pairs if isinstance(d, ast.Constant) and x.arg not in ("timeout", "retries", "retry_delay")}


def name(b):
    return f"{b[1]}({b[2]},{b[3]}) at 0x{b[0]:02x}" if b[0] != "?" else b[1]


def models(I):
    return [m for m in I.cls("model.inverter:Model").enum_members]


def firmwares(model):
    n = EXTENDED_FROM.get(model)
    return (None, 1, n - 1, n, 999) if n else (None, 449)


def check(chk):
    I = chk.interp()
    chk.require(I.func(CLIENT + ".execute") is not None, "Client.execute")
    for what, group in (("three-phase", THREE_PHASE), ("EMS", EMS), ("gateway", GATEWAY), ("AC-config", AC_CONFIG), ("extended-slot", EXTENDED | set(EXTENDED_FROM))):
        chk.require(group <= set(models(I)), f"the {what} models")
    ms = models(I)
    chk.parallel(
        [lambda part=ms[i::4]: configs(chk, I, part) for i in range(4)]
        + [lambda part=ms[i::4]: refreshes(chk, I, part) for i in range(4)]
        + [lambda m=m: skips(chk, I, m) for m in ("HYBRID_GEN1", "HYBRID_3PH", "EMS", "GATEWAY")]
        + [lambda: limits(chk, I)]
    )


def configs(chk, I, ms):
    for m in ms:
        for fw in firmwares(m):
            for kind, t in (("no peripherals", EMPTY), ("every peripheral", FULL)):
                c = Poll(chk, I, f"load_config() of {m}, firmware {fw}, {kind}", m, fw, t)
                # presence and age of a block must not matter here
                for b in config_blocks(m, fw, t)[: 2 if t is EMPTY else None]:
                    c.absent(b)
                if t is FULL:
                    for b in config_blocks(m, fw, t):
                        c.committed(b)
                for p, got in c.run("load_config"):
                    c.same(got, config_blocks(m, fw, t), p)
                c.done("configurations read")


def refreshes(chk, I, ms):
    for m in ms:
        for fw in firmwares(m)[:2]:
            for kind, t in (("no peripherals", EMPTY), ("every peripheral", FULL), ("some peripherals", SOME)):
                c = Poll(chk, I, f"refresh() of {m}, firmware {fw}, {kind}", m, fw, t)
                if t is FULL:
                    # the configuration held must not matter here
                    for b in config_blocks(m, fw, t)[:2]:
                        c.absent(b).committed(b)
                for p, got in c.run("refresh"):
                    c.same(got, refresh_blocks(m, fw, t), p)
                c.done("polls")


def near(b):
    """Blocks that differ in one part only."""
    a, t, base, count = b
    return [(a ^ 0x80, t, base, count), (a, "HR", base, count), (a, t, base + 1, count), (a, t, base, count - 1), (a, t, base, 1), (a, t, base - 1, count + 2)]


def number(c, t):
    c.I.types[t] = ("ext", "float")
    c.w.st.facts = {**c.w.st.facts, Term("cmp", "is", t, NONE): False}
    return t


def skips(chk, I, m):
    want = refresh_blocks(m, None, FULL)
    for b in want:
        rest = [x for x in want if x != b]
        c = Poll(chk, I, f"refresh() of {m} with {name(b)} marked absent", m, None, FULL).absent(b)
        for p, got in c.run("refresh"):
            c.same(got, rest, p)
        c.done("absent blocks left out")
        c = Poll(chk, I, f"refresh() of {m} with blocks like {name(b)} marked absent", m, None, FULL)
        for x in near(b):
            c.absent(x)
        for p, got in c.run("refresh"):
            c.same(got, want, p)
        c.done("other blocks absent")
        c = Poll(chk, I, f"refresh() of {m} with {name(b)} cached and no age limit", m, None, FULL).committed(b)
        for p, got in c.run("refresh"):
            c.same(got, want, p)
        c.done("no age limit")
        c = Poll(chk, I, f"refresh(max_age) of {m} with {name(b)} cached", m, None, FULL).committed(b)
        aged(c, b, want, LIMIT, max_age=number(c, LIMIT))
        c.done("age limits")
        c = Poll(chk, I, f"refresh(max_age) of {m} with blocks like {name(b)} cached", m, None, FULL)
        for x in near(b):
            c.committed(x)
        for p, got in c.run("refresh", max_age=number(c, LIMIT)):
            c.same(got, want, p)
        c.done("other blocks cached")


def aged(c, b, want, limit, /, **args):
    """The one block with an age is left out exactly when the age is at most the limit."""
    seen = set()
    for p, got in c.run("refresh", **args):
        old = ages(c.I, p.st, limit)
        if old is None:
            c.fail("age", f"it is not decided from the age of {name(b)} and the limit given whether to ask ({facts_str(p.st)[:120]})")
            continue
        seen.add(old)
        c.same(got, want if old else [x for x in want if x != b], p)
    if c.good and seen != {True, False}:
        c.fail("age", f"the age of {name(b)} is not compared with the limit given")


def ages(I, st, limit):
    """True: the block is known to be older than the limit; False: known not to be; None: not known."""
    out = set()
    for t in st.facts:
        if t.op == "cmp" and limit in t.args[1:]:
            g = next((x for x in t.args[1:] if x.op == "gap"), None)
            if g is not None:
                at = g.args[1]
                if at == T0:
                    fresh, old = I.known(st, Term("cmp", "le", g, limit)), I.known(st, Term("cmp", "lt", limit, g))
                    out.add(old if fresh is None else not fresh)
    return out.pop() if len(out) == 1 else None


def limits(chk, I):
    """The deprecated argument stands in for the limit only when that is missing."""
    m = "HYBRID_GEN1"
    want = refresh_blocks(m, None, FULL)
    b = want[-1]
    c = Poll(chk, I, "refresh(ir0_max_age)", m, None, FULL).committed(b)
    aged(c, b, want, OTHER, ir0_max_age=number(c, OTHER))
    c.done("age limits")
    c = Poll(chk, I, "refresh(ir0_max_age, max_age)", m, None, FULL).committed(b)
    aged(c, b, want, LIMIT, ir0_max_age=number(c, OTHER), max_age=number(c, LIMIT))
    c.done("age limits")
    c = Poll(chk, I, "refresh(max_age) with nothing cached", m, None, FULL)
    for p, got in c.run("refresh", max_age=number(c, LIMIT)):
        c.same(got, want, p)
    c.done("no age limit")
    everything = Poll(chk, I, "refresh() with every block absent", m, None, FULL)
    for x in want:
        everything.absent(x)
    for p, got in everything.run("refresh"):
        everything.same(got, [], p)
    everything.done("absent blocks left out")


MINIMUMS = (("configurations read", 60), ("polls", 60), ("absent blocks left out", 40), ("other blocks absent", 40), ("age limits", 40), ("no age limit", 40), ("other blocks cached", 40))
