"""No register write is encoded unless its register is allowlisted for its tier and its value fits."""
from sa import spec_registers as SR
from sa.check import facts_str
from sa.core import AnalysisError, K, NONE, Term, is_k, kval, show
from sa.wire import fields

TITLE = "Only allowlisted registers with 16-bit values are ever encoded as writes"
RULE = (
    "Every message class that can be encoded with the write function code has its encode() explored from an arbitrary "
    "object state; on every path that returns bytes the facts established on the way must confine the register to the "
    "documented set of the request's tier and the value to 0..65535, and the bytes must carry those very terms."
)


def concrete_writers(I):
    base = I.cls("pdu.base:ClientOutgoingMessage")
    out = []
    for m in I.prog.modules.values():
        for ci in classes_of(I, m):
            if ci.is_subclass(base) and ci is not base:
                tfc = I.class_attr(ci, "transparent_function_code", I.gstate)
                v = tfc[1] if isinstance(tfc, tuple) else tfc
                if v is not None and is_k(v):
                    out.append((ci, kval(v)))
    return out


def classes_of(I, m):
    env = I.G[m.env].data
    return [v.args[0] for v in env.values() if v.op == "cls" and v.args[0].module is m]


def fieldpos(I, st, t):
    fs = fields(t)
    return fs


def check(chk):
    I = chk.interp()
    W = I.cls("pdu.write_registers:WriteHoldingRegisterRequest")
    chk.require(W is not None, "WriteHoldingRegisterRequest")
    chk.require(I.method(W, "encode") is not None, "WriteHoldingRegisterRequest.encode")
    found = concrete_writers(I)
    writers = [ci for ci, code in found if code == 6]
    chk.require(W in writers, "a request class with function code 6")
    for ci in writers:
        explore_writer(chk, I, ci)
    overlap = tiers_disjoint(chk, I)
    # Nothing but the write class may carry the write code: the other outgoing classes' codes are constants.
    for ci, code in found:
        chk.ok("outgoing classes", f"{ci.name}: function code {code}")


def regset(I, st, t):
    """Integers the register may be, or None."""
    fs = I.finite(st, t, 4096)
    return None if fs is None else {kval(x) for x in fs}


def explore_writer(chk, I, ci):
    fn = I.method(ci, "encode")
    s = Term("param", "self")
    I.types[s] = ("cls", ci)
    paths = chk.explore(I, fn, {"self": s})
    where = chk.loc(I, fn)
    ens = I.method(ci, "ensure_valid_state")
    where = chk.loc(I, ens) if ens else where
    rets = [p for p in paths if p.kind == "return"]
    if not rets:
        chk.violation("never-encodes", f"{ci.name}.encode", where, "no write can be encoded at all")
    for p in rets:
        fs = fields(p.val)
        # MBAP (H H H B B), adapter serial (s), padding (Q), device (B), function (B), register (H), value (H), CRC (H)
        sizes = [f.size for f in fs]
        if sizes != [2, 2, 2, 1, 1, 10, 8, 1, 1, 2, 2, 2]:
            chk.violation("frame-shape", f"{ci.name}.encode", where, f"a write frame is made of fields {fs}, not header, serial, padding, address, function, register, value, check")
            continue
        reg, val = fs[9].term, fs[10].term
        if fs[9].code != "H" or fs[10].code != "H" or fs[9].order != ">" or fs[10].order != ">":
            chk.violation("frame-shape", f"{ci.name}.encode", where, f"register/value are not sent as big-endian unsigned 16-bit: {fs[9]} {fs[10]}")
            continue
        inst = tier_of(I, p.st, s)
        regs = regset(I, p.st, reg)
        lo, hi = I.iv(p.st, val)
        if inst is None:
            allowed, label = SR.STANDARD & SR.INSTALLER, "whatever the tier"
            if regs is not None and regs <= SR.STANDARD:
                allowed = SR.STANDARD
        elif inst:
            allowed, label = SR.INSTALLER, "installer"
        else:
            allowed, label = SR.STANDARD, "standard"
        if regs is None:
            chk.violation("register-unchecked", f"{ci.name}.encode", where, f"a {label} write frame is built while its register is not confined to any set (path: {facts_str(p.st)})")
        elif not regs <= allowed:
            chk.violation("register-not-allowlisted", f"{ci.name}.encode", where, f"{label} writes may reach register(s) {sorted(regs - allowed)[:12]}")
        else:
            chk.ok("paths to a write frame", f"{ci.name}.encode: {label}, {len(regs)} registers, value in [{lo}, {hi}]")
        if lo is None or lo < 0 or hi is None or hi > 0xFFFF:
            chk.violation("value-unchecked", f"{ci.name}.encode", where, f"value may be [{lo}, {hi}] when the frame is built")
        if not (reg.op == "attr" and reg.args[:2] == (s, "register")):
            chk.violation("register-rewritten", f"{ci.name}.encode", where, f"the frame carries {show(reg)} in place of the request's register")
        if not (val.op == "attr" and val.args[:2] == (s, "value")):
            chk.violation("value-rewritten", f"{ci.name}.encode", where, f"the frame carries {show(val)} in place of the request's value")


def tier_of(I, st, s):
    for f in list(st.facts):
        if f.op == "attr" and f.args[0] == s and f.args[1] == "installer":
            return I.known(st, f)
    return I.known(st, Term("attr", s, "installer", 0))


def tiers_disjoint(chk, I):
    sets = {}
    for name in ("WRITE_SAFE_REGISTERS", "INSTALLER_WRITE_REGISTERS"):
        t = I.glob("pdu.write_registers:" + name, required=False)
        if t is None:
            return
        ks = I.kset_of(t, I.gstate)
        if ks is None:
            raise AnalysisError(f"{name} is not a constant set")
        sets[name] = {kval(x) for x in ks}
    both = set.intersection(*sets.values())
    m = I.prog.modules["givenergy_modbus.pdu.write_registers"]
    if both:
        chk.violation("tiers-overlap", "write tiers", f"{m.path}:1", f"register(s) {sorted(both)} are in both tiers")
    else:
        chk.ok("tier sets", f"disjoint: {[len(v) for v in sets.values()]}")


MINIMUMS = [("paths to a write frame", 2), ("outgoing classes", 4)]
