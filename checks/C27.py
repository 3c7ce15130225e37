"""Which frames may set the plant's identity, and where a write echo goes."""
from sa.check import facts_str
from sa.core import K, NONE, Term, show
from sa.plantworld import GUARDS, World, WorldPolicy, changed_fields, explored, known_int, known_time, response

TITLE = "Only the inverter names the inverter; write echoes land where reads look"
RULE = (
    "Plant.update() is explored for a valid response of every kind from each of the 256 device addresses, before and after detection, whichever device that address is known as. The inverter serial is replaced by the frame's exactly for addresses 0x11 and 0x31, the adapter serial "
    "always; no other identity field exists. A write echo for register r != 0 adds HR(r) = value to exactly one cache: capabilities.inverter_address when capabilities are known, else the responding address, "
    "creating it when missing and keeping every other register; an echo for register 0 is ignored."
)
INVERTER = (0x11, 0x31)
FRAME, ADAPTER = Term("param", "frame_inverter_serial"), Term("param", "frame_adapter_serial")
TIME = Term("param", "received_at")


def echo(w, addr, reg, value):
    return w.inst(
        "pdu.write_registers:WriteHoldingRegisterResponse", error=K(False), crc_failed=K(False), device_address=K(addr), register=reg, value=value,
        data_adapter_serial_number=ADAPTER, inverter_serial_number=FRAME, padding=K(8), check=Term("param", "check"),
    )


def caps(inverter, listed=()):
    ks = [K(a) for a in listed]
    return lambda w: w.inst(
        "model.plant:PlantCapabilities", inverter_address=K(inverter), lv_bcu_address=ks[0] if ks else NONE, hv_bmu_addresses=w.list(ks), lv_battery_addresses=w.list([K(0x32), *ks]), meter_addresses=w.list(ks),
        bcu_stacks=w.list([]), aio_battery_module_addresses=w.list(ks),
    )


def update(chk, I, w, pdu):
    known_time(w.st, TIME)
    I.policy = WorldPolicy(I, opaque={*GUARDS, "_commit_bank", "is_suspicious"} - {"_getter_for_device_address"}, truth={})
    fn = I.func("model.plant:Plant.update")
    chk.require(fn is not None, "Plant.update")
    before = w.state(w.st)
    return chk.loc(I, fn), before, [(p, w.state(p.st)) for p in explored(chk, I, w, fn, {"pdu": pdu, "received_at": TIME})]


def check(chk):
    chk.interp()
    chk.parallel([lambda k=k: part(chk, k) for k in range(8)])


def part(chk, k):
    I = chk.interp()
    for addr in range(k * 32, k * 32 + 32):
        for kind in ("Input", "Holding", "MeterProduct", "echo"):
            # the responding address may itself be the detected inverter's, or a listed peripheral
            for c in dict.fromkeys((None, 0x11, 0x31, addr) if addr in (0x11, 0x31, 0x32, 0x50) else (None, 0x11, addr)):
                identity(chk, I, addr, kind, c)
            identity(chk, I, addr, kind, 0x11, (addr,))
    if k == 0:
        for c in (None, 0x11, 0x31, 0x32):
            for addr in (0x11, 0x31, 0x32, 0x99):
                for cached in (True, False):
                    for reg in (1, 20, 60, 96, 300, 65535, 0, None):
                        echoes(chk, I, addr, reg, c, cached)


def identity(chk, I, addr, kind, c, listed=()):
    w = World(I, {addr: {("HR", 5): Term("param", "had")}} if addr % 2 else {}, caps=NONE if c is None else caps(c, listed))
    if kind == "echo":
        v = Term("param", "value")
        known_int(I, w.st, v, 0)
        pdu = echo(w, addr, K(20), v)
    else:
        vs = [Term("param", f"v{i}") for i in range(5)]
        for v in vs:
            known_int(I, w.st, v, 0)
        pdu = response(w, kind, addr, 0, vs)
    where, before, outs = update(chk, I, w, pdu)
    what = f"a valid {kind} response from 0x{addr:02x}" if kind != "echo" else f"a write response from 0x{addr:02x}"
    good = bool(outs)
    for p, after in outs:
        chk.count("update paths")
        if p.kind != "return":
            good = False
            chk.violation("raises", what, where, f"{what} raises {show(p.val)}")
            continue
        want = FRAME if addr in INVERTER else before["inverter_serial_number"]
        got = after["inverter_serial_number"]
        if got != want:
            good = False
            verb = "does not set the inverter serial" if addr in INVERTER else "replaces the inverter serial although it is not the inverter's"
            chk.violation("inverter serial", f"0x{addr:02x}" if addr not in INVERTER else what, where, f"{what} {verb} ({facts_str(p.st)[:120]})")
        if after["data_adapter_serial_number"] != ADAPTER:
            good = False
            chk.violation("adapter serial", what, where, f"{what} does not set the data adapter serial ({facts_str(p.st)[:120]})")
    if good:
        chk.ok("identity cases")


def echoes(chk, I, addr, reg, c, cached):
    target = addr if c is None else c
    have = {("HR", 20): Term("param", "was20"), ("HR", 21): Term("param", "was21"), ("IR", 20): Term("param", "ir20")}
    w = World(I, {**({target: have} if cached else {}), 0x07: {("HR", 20): Term("param", "elsewhere")}}, caps=NONE if c is None else caps(c))
    r = K(reg) if reg is not None else Term("param", "register")
    v = Term("param", "value")
    known_int(I, w.st, v, 0)
    if reg is None:
        if cached:
            return
        known_int(I, w.st, r, 1)
    where, before, outs = update(chk, I, w, echo(w, addr, r, v))
    what = f"a write echo for register {reg if reg is not None else 'n > 0'} from 0x{addr:02x}" + ("" if c is None else f" with the inverter at 0x{c:02x}") + ("" if cached else ", nothing cached there")
    good = bool(outs)
    for p, after in outs:
        chk.count("update paths")
        if p.kind != "return":
            good = False
            chk.violation("raises", what, where, f"{what} raises {show(p.val)}")
            continue
        b, a = before["register_caches"], after["register_caches"]
        want = dict(b)
        if reg != 0:
            want[target] = {**b.get(target, {}), ("reg", "HR", w.freeze(p.st, r)): v}
        # an empty cache for a device just heard is no data
        got = {k: {r: y for r, y in x.items() if r != "?"} for k, x in a.items() if x or k in want}
        if got != want:
            good = False
            diff = [hex(k) if isinstance(k, int) else str(k) for k in {**got, **want} if got.get(k) != want.get(k)]
            chk.violation("echo", what, where, f"{what} should leave HR({reg if reg is not None else 'n'}) = value at 0x{target:02x} and nothing else; the caches of {', '.join(diff)} differ ({facts_str(p.st)[:120]})" if reg != 0 else f"{what} should be ignored; the caches of {', '.join(diff)} differ")
        rest = set(changed_fields(before, after)) - {"register_caches", "inverter_serial_number", "data_adapter_serial_number"}
        if rest:
            good = False
            chk.violation("echo side effect", what, where, f"{what} also changes {', '.join(sorted(rest))}")
    if good:
        chk.ok("write echoes")


MINIMUMS = (("identity cases", 4000), ("write echoes", 200))
