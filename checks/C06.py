"""A time-slot command writes the registers that very slot is decoded from."""
from sa import lut
from sa import spec_registers as SR
from sa.check import explore, params_of
from sa.cmds import attr_of, command_functions, command_methods, pairs_of, requests_of, slot_maps, values_of, write_request_class
from sa.core import AnalysisError, K, NONE, Term, is_k, kval, show
from sa.interp import Policy
from sa.match import int_of
from sa.models import possible

TITLE = "Slot commands write the registers the same slot is read from"
RULE = (
    "For every kind of device, the slot layout it selects (per model and firmware) and every command method that writes "
    "a time slot are explored; the start and end registers written for slot n must be exactly the two registers the "
    "device's decoding table reads slot n from."
)
DEVICES = (
    ("model.inverter:SinglePhaseInverter", "SinglePhaseInverterRegisterGetter"),
    ("model.inverter_threephase:ThreePhaseInverter", "ThreePhaseInverterRegisterGetter"),
    ("model.ems:Ems", "EmsRegisterGetter"),
)
# command stem -> decoded field stem ("" index for the un-numbered pause slot)
STEMS = {
    "set_charge_slot": "charge_slot_{}",
    "reset_charge_slot": "charge_slot_{}",
    "set_discharge_slot": "discharge_slot_{}",
    "reset_discharge_slot": "discharge_slot_{}",
    "set_export_slot": "export_slot_{}",
    "set_ems_charge_slot": "charge_slot_{}",
    "set_ems_discharge_slot": "discharge_slot_{}",
    "set_ems_export_slot": "export_slot_{}",
    "set_smart_load_slot": "smart_load_slot_{}",
}
TARGETS = {"set_ems_charge_target_soc": "charge_target_{}", "set_ems_discharge_target_soc": "discharge_target_{}", "set_ems_export_target_soc": "export_target_{}"}
PAUSE = {"set_pause_slot": "battery_pause_slot_1", "set_pause_slot_start": "battery_pause_slot_1", "set_pause_slot_end": "battery_pause_slot_1"}


class Keep(Policy):
    """Leave the model resolution opaque: which model it is stays symbolic."""

    def __init__(self, names):
        self.names = names

    def inline(self, fn, interp, st):
        return fn.qual not in self.names and super().inline(fn, interp, st)


def check(chk):
    I = chk.interp()
    T = lut.tables(I)
    maps = slot_maps(I)
    layouts(chk, I, T, maps)
    chosen(chk, I, maps)
    W = write_request_class(I)
    for cname, getter in DEVICES:
        ci = I.cls(cname)
        chk.require(ci is not None, cname)
        chk.require(getter in T, getter)
        fields = T[getter][1]
        for n, fn in sorted(command_methods(I, ci).items()):
            self_t = Term("param", "self")
            I.types[self_t] = ("cls", ci)
            slot_method(chk, I, W, ci, n, fn, fields, chk.explore(I, fn, {"self": self_t}))
    # module-level helpers that pick their own registers
    fns = dict(command_functions(I))
    sp, ems = T["SinglePhaseInverterRegisterGetter"][1], T["EmsRegisterGetter"][1]
    for n, fn in sorted(fns.items()):
        pos, kwo, _, _ = params_of(fn)
        if "slot_map" in pos + kwo:
            continue
        fields = ems if "ems" in n or "export" in n else sp
        slot_method(chk, I, W, None, n, fn, fields, chk.explore(I, fn))


def pairs_in(I, ref, which):
    st = I.gstate
    v = I.load_attr(ref, which, st, None)
    t = v[0][1]
    items = t.args if t.op == "tup" else I.hget(st, t).data if t.op == "ref" else None
    if items is None:
        raise AnalysisError(f"slot map {which} is not constant")
    out = []
    for x in items:
        ab = x.args if x.op == "tup" else I.hget(st, x).data
        out.append(tuple(kval(I.int_enum(y)) for y in ab))
    return out


def layouts(chk, I, T, maps):
    """Every slot map agrees with the decoding table of the devices that use it."""
    owner = {"SINGLE_PHASE_SLOTS": "SinglePhaseInverterRegisterGetter", "EXTENDED_SLOTS": "SinglePhaseInverterRegisterGetter", "THREE_PHASE_SLOTS": "ThreePhaseInverterRegisterGetter", "EMS_SLOTS": "EmsRegisterGetter"}  # fmt: skip
    m = I.prog.modules["givenergy_modbus.model.slot_map"]
    for name, getter in owner.items():
        chk.require(name in maps, f"slot map {name}")
        fields = T[getter][1]
        for kind in ("charge", "discharge"):
            for i, pair in enumerate(pairs_in(I, maps[name], f"{kind}_slots"), 1):
                f = fields.get(f"{kind}_slot_{i}")
                if f is None:
                    chk.violation("no-such-slot", f"{name}.{kind}[{i}]", f"{m.path}:1", f"{getter} decodes no {kind} slot {i}")
                elif tuple(("HR", x) for x in pair) != f.regs:
                    chk.violation("layout", f"{name}.{kind}[{i}]", f"{m.path}:1", f"writes HR{pair} but {getter} reads {kind} slot {i} from {f.regs}")
                else:
                    chk.ok("slot map entries")


def chosen(chk, I, maps):
    """Which layout a device object uses."""
    for cname, getter in DEVICES[:2]:
        ci = I.cls(cname)
        prop = ci.lookup("slot_map")[1]
        chk.require(prop is not None and prop.op == "prop", f"{cname}.slot_map")
        fn = prop.args[0]
        I.policy = Keep({"givenergy_modbus.model.inverter:resolve_model"})
        self_t = Term("param", "self")
        I.types[self_t] = ("cls", ci)
        paths = chk.explore(I, fn, {"self": self_t})
        I.policy = Policy()
        where = chk.loc(I, fn)
        back = {v: k for k, v in maps.items()}
        for p in paths:
            if p.kind != "return":
                continue
            name = back.get(p.val)
            if name is None:
                chk.violation("unknown-layout", ci.name, where, f"slot_map is {show(p.val)}, not one of the declared layouts")
                continue
            if ci.name == "ThreePhaseInverter":
                if name != "THREE_PHASE_SLOTS":
                    chk.violation("wrong-layout", ci.name, where, f"a three-phase inverter uses {name}")
                else:
                    chk.ok("layout choices", f"{ci.name}: {name}")
                continue
            if name not in ("SINGLE_PHASE_SLOTS", "EXTENDED_SLOTS"):
                chk.violation("wrong-layout", ci.name, where, f"a single-phase inverter uses {name}")
                continue
            R = next((t for f in p.st.facts for t in subcalls(f)), None)
            if R is None:
                if name != "SINGLE_PHASE_SLOTS":
                    chk.violation("wrong-layout", ci.name, where, f"uses {name} without knowing the model")
                else:
                    chk.ok("layout choices", f"{ci.name}: {name} while the model is unknown")
                continue
            fw = R.args[1][1] if len(R.args[1]) > 1 else dict(R.args[2]).get("arm_fw")
            for m in possible(I, p.st, R, with_none=False):
                if m not in SR.MODELS:
                    continue
                lo, hi = I.iv(p.st, fw)
                gate = SR.EXTENDED_ABOVE_FW.get(m)
                ext = m in SR.EXTENDED_SLOTS or (gate is not None and lo is not None and lo > gate)
                std = m not in SR.EXTENDED_SLOTS and (gate is None or (hi is not None and hi <= gate))
                if (name == "EXTENDED_SLOTS") != ext or (name == "SINGLE_PHASE_SLOTS") != std:
                    chk.violation("wrong-layout", f"{ci.name}:{m}", where, f"{m} with firmware in [{lo}, {hi}] uses {name}")
                else:
                    chk.ok("layout choices", f"{ci.name}: {m} firmware [{lo}, {hi}] -> {name}")


def subcalls(t):
    from sa.core import subterms

    return [s for s in subterms(t) if s.op == "call" and s.args[0].op == "fn" and s.args[0].args[0].name == "resolve_model"]


def slot_method(chk, I, W, ci, n, fn, fields, paths):
    stem, end = n, None
    for e in ("_start", "_end"):
        if n.endswith(e):
            stem, end = n[: -len(e)], e[1:]
    fixed = None
    if stem not in STEMS and stem[-2:-1] == "_" and stem[-1].isdigit():
        fixed = int(stem[-1])
        stem = stem[:-2]
    fld, single = STEMS.get(stem), False
    if n in PAUSE:
        fld, single = PAUSE[n], True
    if n in TARGETS:
        fld, single = TARGETS[n], "target"
    if fld is None:
        return
    label = f"{ci.name}.{n}" if ci else n
    where = chk.loc(I, fn)
    for p in paths:
        if p.kind != "return":
            continue
        reqs = requests_of(I, p.st, p.val)
        if reqs is None:
            raise AnalysisError(f"{label}: the returned list could not be resolved: {show(p.val)}")
        terms = [attr_of(I, p.st, r, "register") for r in reqs]
        sides = [0, 1] if end is None else [0 if end == "start" else 1]
        if single == "target":
            sides = [0]
        if len(terms) != len(sides):
            chk.violation("write-count", label, where, f"writes {len(terms)} registers for one slot")
            continue
        # the index on this path
        want = {}
        idx_pairs = []
        for t in terms:
            if fixed is not None or single is True:
                vs = values_of(I, p.st, t)
                idx_pairs.append([(fixed, vs[0])] if vs is not None and len(vs) == 1 else None)
                continue
            got = None
            for r in int_of(I, p.st, t, "idx"):
                got = pairs_of(I, p.st, r, t) if not is_k(t) else None
                if got is None and is_k(t):
                    fs = I.finite(p.st, r)
                    got = [(kval(f), kval(t)) for f in fs] if fs is not None else None
                if got is not None:
                    break
            idx_pairs.append(got)
        if any(x is None for x in idx_pairs):
            raise AnalysisError(f"{label}: a register written is not tied to the slot index: {[show(t) for t in terms]}")
        used = set()
        for got in idx_pairs:
            for idx, _ in got:
                used.add(idx)
        for idx in used:
            name = fld if single is True else fld.format(idx)
            f = fields.get(name)
            regs = [y for got in idx_pairs for x, y in got if x == idx]
            if f is None:
                chk.violation("no-such-slot", f"{label}[{idx}]", where, f"writes {regs} but the device decodes no {name}")
                continue
            exp = {f.regs[s][1] for s in sides if s < len(f.regs)} if single != "target" else {f.regs[0][1]}
            if set(regs) != exp:
                chk.violation("mismatch", f"{label}[{idx}]", where, f"writes HR{sorted(regs)} but {name} is read from {f.regs}")
            else:
                chk.ok("slot writes matched to decoding", f"{label}[{idx}] -> {sorted(regs)}" if len(chk.samples) < 30 else None)


MINIMUMS = [("slot writes matched to decoding", 100), ("slot map entries", 40), ("layout choices", 15)]
