"""Only validated register banks replace cached data."""
from sa.check import facts_str
from sa.clientmodel import events
from sa.core import K, NONE, Term, show
from sa.plantworld import AT, World, WorldPolicy, bank, changed_fields, explored, known_int, known_time, response

TITLE = "Only a register bank that passes every validity gate replaces cached data"
RULE = (
    "Plant.update() is explored on plants of known shape (which caches and registers exist) with unknown contents, for responses of known shape with unknown values, and judged by the state each path leaves. "
    "The cache of the responding device ends up unchanged or with the whole bank merged, no other cache changes, and the bank is merged exactly when: the serial gate of the device at that address (all 256 "
    "addresses, with and without capabilities) and, for battery banks, the splice guard said yes; and it is not an all-zero block of 60 over non-zero data, an all-cells-zero battery block with firmware or "
    "capacity present, or a block with more than five of the known bad values. Error, null and non-register messages change nothing."
)
OPAQUE = ("_splice_guard", "is_coherent", "validate_bank", "_splice_burst_note_commit")
BAD = {28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 40: 0xE4F9, 41: 0xC0A8, 43: 0xC0A8, 46: 0xC5E9, 50: 0x60EF, 51: 0x8018, 52: 0x43E0, 53: 0xF6CE, 56: 0x080A, 58: 0xFCC1, 59: 0x661E}
KINDS = {"Input": "IR", "Holding": "HR"}
SERIALS = {"inverter_serial_number", "data_adapter_serial_number"}
INV, LV_BCU, BMUS = 0x11, 0x72, (0x50, 0x51)


def caps(w, inverter=INV, lv_bcu=None, bmus=()):
    return w.inst(
        "model.plant:PlantCapabilities", inverter_address=K(inverter), lv_bcu_address=NONE if lv_bcu is None else K(lv_bcu), hv_bmu_addresses=w.list([K(b) for b in bmus]),
        lv_battery_addresses=w.list([]), meter_addresses=w.list([]), bcu_stacks=w.list([]), aio_battery_module_addresses=w.list([]),
    )


def getter(addr, c):
    """The register class of the device at an address."""
    if c is None:
        if addr in (0x11, 0x31):
            return "SinglePhaseInverterRegisterGetter"
    else:
        if addr == c.get("inverter", INV):
            return "SinglePhaseInverterRegisterGetter"
        if addr == c.get("lv_bcu"):
            return "LvBcuRegisterGetter"
        if addr in c.get("bmus", ()):
            return "BmuRegisterGetter"
    if 0x32 <= addr <= 0x37:
        return "BatteryRegisterGetter"
    if 1 <= addr <= 8:
        return "MeterRegisterGetter"
    if 0x70 <= addr <= 0x8F:
        return "BcuRegisterGetter"
    return None


class Outcome:
    def __init__(self, run, p):
        self.run, self.p, self.st = run, p, p.st
        self.evs = events(p.st.trace)
        self.after = run.w.state(p.st)
        self.diff = changed_fields(run.before, self.after)

    def cache(self):
        return self.after["register_caches"].get(self.run.addr)

    def committed(self):
        c = self.cache()
        if c is None or any(k not in c or c[k] != v for k, v in self.run.incoming.items()):
            return False
        return c != self.run.before["register_caches"].get(self.run.addr) or "register_block_present" in self.diff

    def verdicts(self, name):
        return [(e, self.run.I.known(self.st, e.res)) for e in self.evs if e.name == name]


class Run:
    """One scenario: a response of this shape applied to a plant of that shape."""

    def __init__(self, chk, I, kind, addr, base, values, cached, c=None, count=None, opaque=OPAQUE, other=True, prepare=None, **over):
        self.chk, self.I, self.addr, self.c = chk, I, addr, c
        t = KINDS.get(kind, "MR")
        shape = {a: {(t, base + i): v for i, v in enumerate(vs) if v is not None} for a, vs in ((addr, cached),) if vs is not None}
        if addr in shape:
            shape[addr][(t, 9000)] = Term("param", "elsewhere")
        if other:
            shape[0x99] = {("IR", 60): Term("param", "other_value")}
        self.w = w = World(I, shape, caps=(lambda w: caps(w, **c)) if c is not None else NONE)
        known_time(w.st, AT)
        pdu = response(w, kind, addr, base, values, count, **over)
        if prepare:
            prepare(w)
        self.before = w.state(w.st)
        self.incoming = {("reg", t, base + i): w.freeze(w.st, v) for i, v in enumerate(values)}
        I.policy = WorldPolicy(I, opaque=opaque)
        self.fn = I.func("model.plant:Plant.update")
        chk.require(self.fn is not None, "Plant.update")
        self.where = chk.loc(I, self.fn)
        self.outs = [Outcome(self, p) for p in explored(chk, I, w, self.fn, {"pdu": pdu, "received_at": AT})]
        chk.count("update paths", len(self.outs))


def sound(chk, r, what):
    """Whatever happens: no exception, one cache touched, whole bank or nothing."""
    good = True
    for o in r.outs:
        if o.p.kind != "return":
            chk.violation("raises", what, r.where, f"applying {what} raises {show(o.p.val)} ({facts_str(o.st)[:160]})")
            good = False
            continue
        b, a = r.before["register_caches"], o.after["register_caches"]
        for k in set(a) | set(b):
            if k == r.addr:
                continue
            if a.get(k) != b.get(k):
                chk.violation("other cache", what, r.where, f"applying {what} changes the cache of device {k if not isinstance(k, int) else hex(k)}")
                good = False
        old, new = b.get(r.addr), a.get(r.addr)
        if old is not None and new is None:
            chk.violation("dropped", what, r.where, f"applying {what} drops the device's cache")
            good = False
        elif (new or {}) != (old or {}) and (new or {}) != {**(old or {}), **r.incoming}:
            chk.violation("partial", what, r.where, f"applying {what} leaves neither the old registers nor the old ones with the whole bank merged: {diff_text(old or {}, new or {}, r.incoming)}")
            good = False
    return good


def diff_text(old, new, incoming):
    want = {**old, **incoming}
    bad = [k for k in set(new) | set(want) if new.get(k) != want.get(k)]
    return ", ".join(f"{k}: {new.get(k, 'missing')}" for k in sorted(bad, key=str)[:3])


def gates(chk, r, what, expect):
    """Merged only past the gates; refused only by a gate.  Returns False when something was reported."""
    good = sound(chk, r, what)
    g = getter(r.addr, r.c)
    merged = 0
    for o in r.outs:
        if o.p.kind != "return":
            continue
        coherent = o.verdicts("is_coherent")
        splice = o.verdicts("_splice_guard")
        if o.committed():
            merged += 1
            if g is not None and not any(v is True and class_of(e) == g and covers(o, e) for e, v in coherent):
                seen = ", ".join(f"{class_of(e)}: {v}" for e, v in coherent) or "none"
                chk.violation("unvalidated", what, r.where, f"{what} is cached although the serial gate of {g} did not accept it (consulted: {seen}; {facts_str(o.st)[:120]})")
                good = False
            if g == "BatteryRegisterGetter" and not any(v is True for _, v in splice):
                chk.violation("unguarded", what, r.where, f"{what} is cached although the battery splice guard did not accept it")
                good = False
        elif o.cache() == r.before["register_caches"].get(r.addr) or o.cache() == {}:
            if not any(v is False for _, v in coherent) and not any(v is False for _, v in splice):
                if expect:
                    chk.violation("refused", what, r.where, f"{what} is refused although every gate accepts it ({facts_str(o.st)[:160]})")
                    good = False
    if expect and not merged and good:
        chk.violation("refused", what, r.where, f"{what} is never cached")
        good = False
    if good:
        chk.ok("banks past the gates", what)
    return good


def class_of(e):
    b = e.base
    if b is not None and b.op == "cls":
        return b.args[0].name
    return show(b) if b is not None else None


def covers(o, e):
    """The gate was shown this bank, and what is cached."""
    old = o.run.before["register_caches"].get(o.run.addr) or {}
    shown = [d for a in (*e.res.args[1], *(v for _, v in e.res.args[2])) if (d := plain(o, a)) is not None]
    return o.run.incoming in shown and (old in shown or {**old, **o.run.incoming} in shown)


def plain(o, t):
    if t.op == "dictof":
        it = iter(t.args)
        return {o.run.w.freeze(o.st, k): o.run.w.freeze(o.st, v) for k, v in zip(it, it)}
    return None


def never(chk, r, what, why):
    good = sound(chk, r, what)
    for o in r.outs:
        if o.p.kind == "return" and (o.cache() or {}) != (r.before["register_caches"].get(r.addr) or {}):
            chk.violation("admitted", what, r.where, f"{what} replaces cached data: {why} ({facts_str(o.st)[:160]})")
            good = False
    if good:
        chk.ok("banks always refused", what)
    return good


def nonzero(w, vs):
    for v in vs:
        if v.op != "k":
            known_int(w.I, w.st, v, 1)


def ordinary(n, tag="v"):
    """Values of an ordinary bank: unknown and non-zero, except where a known bad value could sit."""
    return [K(1) if n == 60 and i in BAD else Term("param", f"{tag}{i}") for i in range(n)]


def check(chk):
    I = chk.interp()
    dispatch(chk, I)
    shapes(chk, I)
    dropouts(chk, I)
    impossible(chk, I)
    fingerprint(chk, I)
    ignored(chk, I)


def dispatch(chk, I):
    """Every address, without capabilities and with three sets of them: the right serial gate decides."""
    variants = [None, {"inverter": INV}, {"inverter": 0x31, "lv_bcu": LV_BCU, "bmus": BMUS}, {"inverter": INV, "lv_bcu": 0xA0, "bmus": (0x33, 0x70)}]
    for c in variants:
        for addr in range(256):
            vs = bank(1)
            r = Run(chk, I, "Input", addr, 60, vs, [Term("param", "c0")], c, other=False, prepare=lambda w: nonzero(w, vs))
            gates(chk, r, f"IR(60,1) from {addr:#04x}{'' if c is None else ' with capabilities ' + str(sorted(c.items()))}", True)


def shapes(chk, I):
    for addr in (0x11, 0x31, 0x32, 0x37, 0x38, 0x01, 0x70, 0x50):
        for kind in KINDS:
            for base, n in ((60, 60), (0, 60), (180, 60), (60, 59), (1000, 60)):
                for held in (True, False):
                    if base in (180, 1000) and not held:
                        continue
                    vs = ordinary(n)
                    r = Run(chk, I, kind, addr, base, vs, bank(n, "c") if held else None, prepare=lambda w: nonzero(w, vs))
                    gates(chk, r, f"{KINDS[kind]}({base},{n}) from {addr:#04x}{'' if held else ' (first seen)'}", True)


def dropouts(chk, I):
    for addr in (0x11, 0x32, 0x01, 0x70, 0x50):
        for kind in KINDS:
            for j in (0, 29, 59):
                cached = bank(60, "c")
                r = Run(chk, I, kind, addr, 60, [K(0)] * 60, cached, prepare=lambda w: nonzero(w, [cached[j]]))
                never(chk, r, f"all-zero {KINDS[kind]}(60,60) from {addr:#04x} over a non-zero register {60 + j}", "a block that drops to all zero over non-zero data keeps the last good values")
                # one register of the bank is not zero: an ordinary bank
                vs = [K(0)] * 60
                vs[j] = Term("param", "v")
                if 0x32 <= addr <= 0x37 and kind == "Input" and j == 29:
                    continue  # capacity without cells
                r = Run(chk, I, kind, addr, 60, vs, cached, prepare=lambda w: nonzero(w, [vs[j], *cached[:1]]))
                gates(chk, r, f"{KINDS[kind]}(60,60) from {addr:#04x} with only register {60 + j} not zero", True)
            for cached, what in (([K(0)] * 60, "over zeros"), ([None] * 60, "over an empty cache"), (None, "first seen")):
                r = Run(chk, I, kind, addr, 60, [K(0)] * 60, cached)
                gates(chk, r, f"all-zero {KINDS[kind]}(60,60) from {addr:#04x} {what}", True)
            for n in (1, 59):
                cached = bank(n, "c")
                r = Run(chk, I, kind, addr, 60, [K(0)] * n, cached, prepare=lambda w: nonzero(w, cached[:1]))
                gates(chk, r, f"all-zero {KINDS[kind]}(60,{n}) from {addr:#04x} over non-zero data", True)


CELLS, FIRMWARE, CAPACITY = range(16), 38, (28, 29)


def impossible(chk, I):
    for c in (None, {"inverter": INV}):
        for addr in range(0x32, 0x38):
            for evidence in (FIRMWARE, *CAPACITY):
                vs = [K(0) if i in CELLS else Term("param", f"v{i}") for i in range(60)]
                r = Run(chk, I, "Input", addr, 60, vs, None if evidence == 28 else bank(60, "c"), c, prepare=lambda w: nonzero(w, [vs[evidence]]))
                what = f"battery bank from {addr:#04x} with every cell zero but IR({60 + evidence}) set"
                if never(chk, r, what, "a battery that reports firmware or capacity cannot have all cells at 0 V"):
                    for o in r.outs:
                        if o.diff.get("splice_reject_count") is None and any(e.name in ("_splice_guard", "is_coherent") for e in o.evs) is False and not suspicious(o):
                            chk.violation("uncounted", what, r.where, f"{what} is refused without being counted in splice_reject_count")
        for addr in (0x32, 0x37):
            for j in (0, 15):
                vs = [K(0) if i in CELLS and i != j else Term("param", f"v{i}") if i not in BAD else K(1) for i in range(60)]
                r = Run(chk, I, "Input", addr, 60, vs, bank(60, "c"), c, prepare=lambda w: nonzero(w, [v for v in vs if v.op != "k"]))
                gates(chk, r, f"battery bank from {addr:#04x} with only cell {j} above zero", True)
            vs = [K(0) if i in CELLS or i in (FIRMWARE, *CAPACITY) else K(1) for i in range(60)]
            r = Run(chk, I, "Input", addr, 60, vs, bank(60, "c"), c)
            gates(chk, r, f"battery bank from {addr:#04x} with neither cells, firmware nor capacity", True)
        for addr in (0x38, 0x50, 0x70, 0x11, 0x01):
            vs = [K(0) if i in CELLS else K(1) for i in range(60)]
            r = Run(chk, I, "Input", addr, 60, vs, bank(60, "c"), c)
            gates(chk, r, f"bank from {addr:#04x}, not a battery, whose first 16 registers are zero", True)


def suspicious(o):
    return any(b is True and f.op == "cmp" and f.args[0] in ("lt", "le") for f, b in o.st.facts.items() if f not in o.run.w.st.facts)


def fingerprint(chk, I):
    names = sorted(BAD)
    for base in (0, 60, 180):
        for keep, want in ((names, False), (names[:6], False), (names[-6:], False), (names[3:9], False), (names[:5], True), (names[-5:], True)):
            vs = [K(BAD[i]) if i in keep else K(7) if i in BAD else Term("param", f"v{i}") for i in range(60)]
            r = Run(chk, I, "Input", 0x11, base, vs, bank(60, "c"), prepare=lambda w: nonzero(w, [v for v in vs if v.op != "k"]))
            what = f"IR({base},60) holding {len(keep)} of the known bad values ({keep[0]}..{keep[-1]})"
            if want:
                gates(chk, r, what, True)
            else:
                never(chk, r, what, "more than five of the known bad values mark a block substituted by the dongle")


def ignored(chk, I):
    """Messages that carry no accepted registers change nothing at all."""
    cases = [(k, dict(error=K(True))) for k in (*KINDS, "MeterProduct")]
    for kind, over in cases:
        r = Run(chk, I, kind, 0x11, 60, bank(2), bank(2, "c"), **over)
        unchanged(chk, r, f"an error response ({kind})")
    for cls in ("pdu.null:NullResponse", "pdu.heartbeat:HeartbeatRequest", "pdu.write_registers:WriteHoldingRegisterResponse"):
        w = World(I, {0x11: {("HR", 20): Term("param", "c")}})
        known_time(w.st, AT)
        over = dict(register=K(20), value=Term("param", "v")) if "Write" in cls else {}
        pdu = w.inst(cls, error=K("Write" in cls), device_address=K(0x11), data_adapter_serial_number=Term("param", "frame_adapter_serial"), inverter_serial_number=Term("param", "frame_inverter_serial"), **over)
        I.policy = WorldPolicy(I, opaque=OPAQUE)
        fn = I.func("model.plant:Plant.update")
        before = w.state(w.st)
        for p in explored(chk, I, w, fn, {"pdu": pdu, "received_at": AT}):
            name = cls.split(":")[1]
            d = changed_fields(before, w.state(p.st))
            if p.kind != "return" or d:
                chk.violation("not ignored", name, chk.loc(I, fn), f"{'an error ' if 'Write' in cls else ''}{name} {'raises ' + show(p.val) if p.kind != 'return' else 'changes ' + ', '.join(d)}")
            else:
                chk.ok("messages ignored", name)


def unchanged(chk, r, what):
    for o in r.outs:
        if o.p.kind != "return" or o.diff:
            chk.violation("not ignored", what, r.where, f"{what} {'raises ' + show(o.p.val) if o.p.kind != 'return' else 'changes ' + ', '.join(o.diff)}")
        else:
            chk.ok("messages ignored", what)


MINIMUMS = (("banks past the gates", 900), ("banks always refused", 60), ("messages ignored", 5))
