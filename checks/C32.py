"""Plant.devices lists one root and every device view exactly once, under a stable identity."""
from sa.check import AnalysisError, facts_str
from sa.clientmodel import Ev, events
from sa.core import NONE, Term, is_k, kval, show
from sa.events import attr_path, callee_of, loops, receiver_and_args
from sa.interp import Policy, State

TITLE = "The device list has one root and every device once, under a stable identity"
RULE = (
    "Plant.devices is explored once per kind of device, with an arbitrary list of that kind and the others empty. On every path the rows constructed must be exactly the rows returned: one root first (type by the plant's "
    "facts, no parent, control authority), then for an arbitrary device of the kind exactly one row that holds the device itself, its type, its parent's identity and, as identity, its validated serial or "
    "- only when that is missing - a text made of the plant's (or stack's) identity and the device's own position or address. _validated_serial must be None for an invalid device."
)
S = Term("param", "self")
FIELDS = ("identity", "device_type", "parent", "device", "serial_number", "firmware_version", "is_control_authority", "data_source", "is_valid")
ACCESSORS = {"batteries", "meters", "hv_stacks", "aio_battery_modules", "ems", "gateway", "inverters", "inverter_serial", "inverter", "capabilities"}
KINDS = {"batteries": "BATTERY", "aio_battery_modules": "BATTERY_MODULE", "hv_stacks": "HV_STACK", "meters": "METER"}
MINIMUMS = [("roots", 8), ("rows", 20), ("identity: the device's serial", 4), ("identity: position under the plant", 4)]


class P(Policy):
    max_depth = 10

    def __init__(self, entry=None):
        self.entry = entry
        self.turns = {}  # loop-carried variable -> does every turn change it by a fixed step?

    def inline(self, fn, interp, st):
        return fn.module.name.endswith(".model.plant") and fn.name not in ACCESSORS | {"_walk_firmware", "_validated_serial", "is_gateway"} - {self.entry}

    def on_loop_end(self, interp, node, head, end, kind):
        for o, e in ((o, end.h.get(r)) for r, o in head.h.items() if o.kind == "env"):
            for n, x in o.data.items() if e is not None else ():
                if x.op == "havoc":
                    v = e.data.get(n)
                    step = v is not None and v.op == "bin" and v.args[0] == "+" and x in v.args[1:] and any(is_k(y) and kval(y) for y in v.args[1:])
                    self.turns[x] = self.turns.get(x, True) and step

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        if callee.op == "cls" and getattr(callee.args[0], "name", "") == "PlantDevice":
            kw = dict(zip(FIELDS, args), **kwargs)
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), interp.uid(node))
            return [(st.emit(Ev("row", None, (), kw, node, loops(interp.ctx), None, res)), res)]
        return None


def A(name):
    return Term("attr", S, name, 0)


def check(chk):
    I = chk.interp()
    fn = I.func("model.plant:Plant.devices")
    vs = I.func("model.plant:_validated_serial")
    chk.require(fn is not None and vs is not None, "Plant.devices")
    for kind in KINDS:
        st = State()
        st.facts = {A(k): False for k in KINDS if k != kind}
        I.policy = P()
        walk(chk, I, fn, kind, chk.explore(I, fn, st=st))
    validated(chk, I, vs)


def walk(chk, I, fn, kind, paths):
    where = chk.loc(I, fn)
    for p in paths:
        if p.kind != "return":
            chk.violation("raises", fn.name, where, f"the walk raises {show(p.val)} ({facts_str(p.st)})")
            continue
        rows = [e for e in events(p.st.trace) if e.name == "row"]
        if p.val.op != "ref" or I.hget(p.st, p.val).kind != "list":
            raise AnalysisError(f"devices returns {show(p.val)}")
        listed = flat(I, p.st, p.val)
        made = {e.res: e for e in rows}
        for x in listed:
            if x not in made:
                raise AnalysisError(f"devices lists {show(x)}")
        lost = [e for e in rows if e.res not in listed]
        if lost or len(set(listed)) != len(listed):
            chk.violation("incomplete", fn.name, where, f"a row is made but not listed: {show(dict(lost[0].kw)['device'])}" if lost else "a row is listed twice")
            continue
        roots = [e for e in rows if dict(e.kw).get("parent") == NONE]
        if len(roots) != 1 or listed[0] != roots[0].res:
            chk.violation("root", fn.name, where, f"{len(roots)} rows without a parent; the first row is {'one' if listed and made[listed[0]] in roots else 'not one'} of them ({facts_str(p.st)})")
            continue
        if any(a[0] == "broke" for a in p.st.aux):
            chk.violation("incomplete", fn.name, where, "the walk over the devices can stop before its end")
            continue
        ident = root(chk, I, fn, p, roots[0])
        children(chk, I, fn, p, kind, [e for e in rows if e is not roots[0]], ident)


def flat(I, st, v):
    out = []
    for x in I.hget(st, v).data:
        if x.op == "star" and x.args[0].op == "ref" and I.hget(st, x.args[0]).kind == "list":
            out += flat(I, st, x.args[0])
        else:
            out.append(x)
    return out


def line(fn, e):
    return f"{fn.module.path}:{e.line()} ({fn.qual})"


def typ(e):
    t = dict(e.kw).get("device_type")
    return t.args[1] if t is not None and t.op == "enum" else show(t) if t is not None else None


def knows(st, name):
    """Does the path know self.<name> to be a device (True), none (False), or not say (None)?"""
    for f, b in st.facts.items():
        if attr_path(f) == "self." + name:
            return b
        if f.op == "cmp" and f.args[0] in ("is", "eq") and NONE in f.args[1:] and any(attr_path(x) == "self." + name for x in f.args[1:]):
            return not b
    return None


def gatewayish(st):
    for f, b in st.facts.items():
        if any("is_gateway" in show(x) for x in (f,)):
            return b
        if attr_path(f) == "self.capabilities" and not b:
            return False
        if f.op == "cmp" and f.args[0] in ("eq", "is") and any(x.op == "enum" and x.args[1] == "GATEWAY" for x in f.args[1:]):
            return b
    return None


def root(chk, I, fn, p, e):
    kw = dict(e.kw)
    st = p.st
    t = typ(e)
    gw = gatewayish(st) is not False and knows(st, "gateway") is not False and not (gatewayish(st) is None and knows(st, "gateway") is None)
    if knows(st, "ems") is None and not gw:
        raise AnalysisError("which root the plant has")
    want = "GATEWAY" if gw else "EMS" if knows(st, "ems") else "INVERTER"
    dev = attr_path(kw["device"])
    good = t == want and (dev == {"GATEWAY": "self.gateway", "EMS": "self.ems"}[want] if want != "INVERTER" else kw["device"] == NONE or of_inverters(kw["device"]))
    if not good:
        chk.violation("root", fn.name, line(fn, e), f"the root row is {t} holding {show(kw['device'])} where the plant's root is {want} ({facts_str(st)})")
    elif not (is_k(kw.get("is_control_authority", NONE)) and kval(kw["is_control_authority"]) is True):
        chk.violation("root", fn.name, line(fn, e), "the root row is not marked as the control authority")
    elif attr_path(kw["identity"]) != "self.inverter_serial":
        chk.violation("identity", fn.name, line(fn, e), f"the root's identity is {show(kw['identity'])}, not the plant's serial")
    else:
        chk.ok("roots", f"{t}")
    return kw["identity"]


def of_inverters(t):
    return t.op in ("idx", "elem") and attr_path(t.args[0]) == "self.inverters" and (t.op == "elem" or is_k(t.args[1]) and kval(t.args[1]) == 0)


def item_of(t, path):
    """An element of the list at `path`, or the value of an item of the mapping there."""
    if t.op == "elem":
        b = t.args[0]
        if attr_path(b) == path:
            return t
        inner = container(b)
        return t if inner == path else None
    if t.op == "val" and attr_path(t.args[0]) == path:
        return t
    if t.op == "idx" and t.args[0].op == "elem" and is_k(t.args[1]) and kval(t.args[1]) == 1 and container(t.args[0].args[0]) == path:
        return t
    if t.op == "idx" and attr_path(t.args[0]) == path and t.args[1].op == "elem" and path in (attr_path(t.args[1].args[0]), container(t.args[1].args[0])):
        return t
    return None


def container(b):
    """The attribute a view, copy or method result of a container comes from."""
    for _ in range(6):
        if attr_path(b) and attr_path(b).startswith("self.") and b.op == "attr":
            return attr_path(b)
        if b.op == "call":
            n, base, _x = callee_of(b.args[0])
            b = base if base is not None else b.args[1][0] if b.args[1] else b
        elif b.args and isinstance(b.args[0], Term) and b.op not in ("elem", "attr", "idx", "val", "pos"):
            b = b.args[0]
        else:
            return None
    return None


def serial_of(t, dev):
    """_validated_serial(dev)."""
    if t.op != "call":
        return False
    n, base, _ = callee_of(t.args[0])
    return n == "_validated_serial" and list(t.args[1]) == [dev]


def children(chk, I, fn, p, kind, rows, ident):
    path = "self." + kind
    seen = []
    stack = None
    for e in rows:
        kw = dict(e.kw)
        dev = kw["device"]
        if is_k(kw.get("is_control_authority", NONE)) and kw.get("is_control_authority", NONE) != NONE and kval(kw["is_control_authority"]) is not False:
            chk.violation("root", fn.name, line(fn, e), "a second row is marked as the control authority")
            continue
        if of_inverters(dev):
            managed(chk, I, fn, p, e, kw, ident)
            continue
        bmu = kind == "hv_stacks" and dev.op == "elem" and dev.args[0].op == "attr" and dev.args[0].args[1] == "bmus" and item_of(dev.args[0].args[0], path)
        want = "BATTERY_MODULE" if bmu else KINDS[kind]
        if not bmu and item_of(dev, path) is None:
            chk.violation("wrong-device", fn.name, line(fn, e), f"a row holds {show(dev)}")
            continue
        seen.append(dev)
        if typ(e) != want:
            chk.violation("wrong-device", fn.name, line(fn, e), f"{show(dev)} is listed as {typ(e)}, not {want}")
            continue
        up = stack if bmu else ident
        if kw.get("parent") != up:
            chk.violation("parent", fn.name, line(fn, e), f"the parent of {show(dev)} is {show(kw.get('parent', NONE))}, which is not the identity of its parent's row")
            continue
        if kind == "hv_stacks" and not bmu:
            stack = kw["identity"]
        src = Term("attr", dev, "bcu", 0) if kind == "hv_stacks" and not bmu else dev
        identity(chk, I, fn, p, e, kw, dev, src, kind, bmu, up, ident)
        chk.ok("rows", f"{kind}: {want}")
    run = [e for e in rows if of_inverters(dict(e.kw)["device"])]
    if typ_root(p) == "EMS" and known(p.st, A("inverters")) is True and len(run) != 1 or any(dict(e.kw)["device"].op != "elem" for e in run):
        chk.violation("incomplete", fn.name, chk.loc(I, fn), f"an arbitrary inverter managed by the EMS is listed {len(run)} times ({facts_str(p.st)})")
    k = known(p.st, A(kind))
    mine = [d for d in seen if item_of(d, path) is not None]
    if k is False:
        return
    if len(mine) != 1 and not (k is None and not mine):
        chk.violation("incomplete", fn.name, chk.loc(I, fn), f"an arbitrary device of {path} is listed {len(mine)} times ({facts_str(p.st)})")
    if kind == "hv_stacks" and mine:
        covered = not any(attr_path(f) in ("self.capabilities", "self.capabilities.aio_battery_module_addresses") and not b or f.op == "cmp" and NONE in f.args[1:] and b and any(attr_path(x) == "self.capabilities" for x in f.args[1:]) for f, b in p.st.facts.items())
        none = [f for f, b in p.st.facts.items() if b is False and f.op == "attr" and f.args[1] == "bmus"]
        mods = [d for d in seen if d not in mine]
        if covered and mods:
            chk.violation("listed-twice", fn.name, chk.loc(I, fn), "the modules of a stack are listed although the All-in-One modules already list them")
        elif not any(b and attr_path(f) == "self.capabilities.aio_battery_module_addresses" for f, b in p.st.facts.items()) and not none and len(mods) != 1:
            chk.violation("incomplete", fn.name, chk.loc(I, fn), f"a module of a stack is listed {len(mods)} times ({facts_str(p.st)})")
        else:
            chk.ok("modules of a stack")


def typ_root(p):
    return next((typ(e) for e in events(p.st.trace) if e.name == "row" and dict(e.kw).get("parent") == NONE), None)


def known(st, t):
    return next((b for f, b in st.facts.items() if f == t), None)


def identity(chk, I, fn, p, e, kw, dev, src, kind, bmu, up, ident):
    x = kw["identity"]
    ser = kw.get("serial_number", NONE)
    if not (serial_of(ser, src) or ser == NONE and any(serial_of(f, src) and b is False for f, b in p.st.facts.items())):
        chk.violation("identity", fn.name, line(fn, e), f"the serial number listed for {show(dev)} is {show(ser)}")
        return
    if serial_of(x, src) and (kind != "hv_stacks" or bmu):
        if any(serial_of(f, src) and b is False for f, b in p.st.facts.items()) or not any(serial_of(f, src) for f in p.st.facts):
            chk.violation("identity", fn.name, line(fn, e), f"{show(dev)} is listed under an identity that may be empty")
        else:
            chk.ok("identity: the device's serial")
        return
    if kind != "hv_stacks" or bmu:
        if not any((serial_of(f, src) and b is False) or (f.op == "cmp" and NONE in f.args[1:] and any(serial_of(y, src) for y in f.args[1:])) for f, b in p.st.facts.items()):
            chk.violation("identity", fn.name, line(fn, e), f"{show(dev)} is not listed under its own serial: {show(x)} ({facts_str(p.st)})")
            return
    terms = set(subterms(x))
    anchor = attr_path_in(terms, "self.inverter_serial") if not bmu else up in terms or {y for y in subterms(up) if y != up} <= terms
    if any(b is False and f.op in ("hasattr", "call") and "hasattr" in show(f) and dev in set(subterms(f)) for f, b in p.st.facts.items()):
        return  # an object without the field its class declares
    own = any(mine(t, dev, kind, bmu) or I.policy.turns.get(t) for t in terms)
    if x.op == "fstr" and anchor and own or x.op in ("bin", "call") and anchor and own:
        chk.ok("identity: position under the plant", show(x))
    else:
        chk.violation("identity", fn.name, line(fn, e), f"without a serial {show(dev)} is listed as {show(x)}, which does not tell it from its siblings or from those of another plant")


def mine(t, dev, kind, bmu):
    """A term that tells this device from its siblings: its position or its address."""
    if t.op == "pos":
        c = t.args[0]
        return c == dev.args[0] or dev.op == "elem" and container(c) is not None and container(c) == container(dev.args[0]) and not bmu
    if t.op == "attr" and t.args[0] == dev and t.args[1] in ("module_address", "device_address", "bmu_index"):
        return True
    if dev.op == "val":
        return t == dev.args[1]
    if kind == "meters" and dev.op == "idx":
        return t.op == "idx" and t.args[0] == dev.args[0] and is_k(t.args[1]) and kval(t.args[1]) == 0 or t == dev.args[1] and t.op == "elem"
    return False


def attr_path_in(terms, path):
    return any(attr_path(t) == path for t in terms)


def subterms(t):
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from subterms(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    yield from subterms(x)


def managed(chk, I, fn, p, e, kw, ident):
    """An inverter managed by an EMS."""
    dev = kw["device"]
    if typ(e) != "INVERTER" or kw.get("parent") != ident or knows(p.st, "ems") is not True:
        chk.violation("wrong-device", fn.name, line(fn, e), f"a managed inverter is listed as {typ(e)} under {show(kw.get('parent', NONE))} ({facts_str(p.st)})")
        return
    x = kw["identity"]
    blinded = next((b for f, b in p.st.facts.items() if f.op == "attr" and f.args[:2] == (dev, "is_blinded")), None)
    if blinded is None:
        blinded = next((b for f, b in p.st.facts.items() if "is_blinded" in show(f)), None)
    lits = [kval(a) for a in subterms(x) if is_k(a) and isinstance(kval(a), str)]
    sn = any(t.op == "attr" and t.args[0] == dev and t.args[1] == "serial_number" or "serial_number" in show(t) for t in subterms(x))
    suffix = any("_managed" in a for a in lits) or "_managed" in show(x)
    if is_k(x) and kval(x) == "":
        chk.ok("managed inverters")
    elif blinded is None or not sn or suffix is not blinded:
        chk.violation("identity", fn.name, line(fn, e), f"a managed inverter is listed as {show(x)} ({facts_str(p.st)})")
    else:
        chk.ok("managed inverters")


def validated(chk, I, fn):
    I.policy = P("_validated_serial")
    where = chk.loc(I, fn)
    for p in chk.explore(I, fn):
        valid = [b for f, b in p.st.facts.items() if f.op == "call" and "is_valid" in show(f) and not show(f).startswith(("callable", "hasattr"))]
        if p.kind != "return":
            chk.violation("raises", fn.name, where, f"it raises {show(p.val)}")
        elif False in valid and p.val != NONE:
            chk.violation("identity", fn.name, where, f"an invalid device keeps {show(p.val)} as its serial")
        elif False not in valid and p.val != NONE and "serial_number" not in show(p.val):
            chk.violation("identity", fn.name, where, f"the serial of a device is {show(p.val)}")
        elif p.val != NONE and not valid and not any(unchecked(f, b) for f, b in p.st.facts.items()):
            chk.violation("identity", fn.name, where, f"a serial is given without asking whether the device is valid ({facts_str(p.st)})")
        else:
            chk.ok("validated serials")


def unchecked(f, b):
    """The device is known to have no is_valid() of its own."""
    t = show(f)
    if "is_valid" not in t:
        return False
    return b is False and ("callable" in t or "hasattr" in t) or b is True and "is None" in t
