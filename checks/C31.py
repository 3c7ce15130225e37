"""Every device view of the plant decodes that device's own bank with that device's layout."""
from sa.check import AnalysisError, facts_str
from sa.clientmodel import Ev, attr_is, events
from sa.core import K, NONE, Term, is_k, kval, show
from sa.evalterm import Unknown, value
from sa.events import attr_path, loops, receiver_and_args
from sa.interp import Policy

TITLE = "Each device view reads its own device's registers with its own layout"
RULE = (
    "Plant's view accessors are explored with arbitrary capabilities and an arbitrary element of each address list. Each decode they make is matched against the role's table: the class "
    "called, the address its register bank is fetched under, and - where the class depends on the model - every member of Model consistent with the path's facts. The result must hold "
    "the decode of every recorded address (no early exit, no filter) and nothing when the role is not recorded. HV modules: the running base must start at 0x50 and advance by the stack's "
    "module count on every turn. Each class's from_register_cache must build from its own getter over the bank it was given."
)
CAPS = "self.capabilities"
BANKS = "self.register_caches"
THREE_PHASE = {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
EMS = {"EMS", "EMS_COMMERCIAL"}
GATEWAY = {"GATEWAY"}
LAYOUT = {
    "model.battery:Battery": "BatteryRegisterGetter",
    "model.ems:Ems": "EmsRegisterGetter",
    "model.inverter:SinglePhaseInverter": "SinglePhaseInverterRegisterGetter",
    "model.inverter_threephase:ThreePhaseInverter": "ThreePhaseInverterRegisterGetter",
    "model.meter:Meter": "MeterRegisterGetter",
    "model.meter:MeterProduct": "MeterProductRegisterGetter",
    "model.lv_bcu:LvBcu": "LvBcuRegisterGetter",
    "model.hv_bcu:Bcu": "BcuRegisterGetter",
    "model.gateway:GatewayV1": "GatewayV1RegisterGetter",
    "model.gateway:GatewayV2": "GatewayV2RegisterGetter",
}
CELLS = {"model.hv_bcu:Bmu": "bmu_index", "model.aio_battery:AioBatteryModule": "module_address"}
MINIMUMS = [("views: right class, right bank", 15), ("layouts", 12), ("models decided", 20)]


class P(Policy):
    max_depth = 10

    def __init__(self, I):
        self.I = I
        self.ends, self.enters = [], []

    def inline(self, fn, interp, st):
        m = fn.module.name
        return m.endswith((".model.plant", ".model.manifest")) or fn.cls is None and ".model." in m

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        if callee.op == "cls" and getattr(callee.args[0], "name", "") == "HvStack":
            name, base, rest = "HvStack", None, list(args)
        if name in ("from_register_cache", "HvStack"):
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), interp.uid(node))
            return [(st.emit(Ev(name, base, rest, kwargs, node, loops(interp.ctx), None, res)), res)]
        return None

    def on_loop_end(self, interp, node, head, end, kind):
        self.ends.append((node, head, end))

    def on_loop_enter(self, interp, node, st):
        self.enters.append((node, st))


def check(chk):
    I = chk.interp()
    members = model_members(I)
    for n, f in (("inverter", inverter), ("ems", by_model("ems", "Ems", EMS)), ("gateway", by_model("gateway", "GatewayV1", GATEWAY))):
        f(chk, I, *view(chk, I, n), members)
    for n, cls, addrs in (("batteries", "Battery", "lv_battery_addresses"), ("meters", "Meter", "meter_addresses"), ("aio_battery_modules", "AioBatteryModule", "aio_battery_module_addresses")):
        listed(chk, I, n, cls, addrs, *view(chk, I, n))
    lv_bcu(chk, I, *view(chk, I, "lv_bcu"))
    stacks(chk, I, *view(chk, I, "hv_stacks"))
    layouts(chk, I)


def view(chk, I, name):
    fn = I.func("model.plant:Plant." + name)
    chk.require(fn is not None, "Plant." + name)
    I.policy = pol = P(I)
    return fn, chk.explore(I, fn), pol


def model_members(I):
    ci = I.cls("model.inverter:Model")
    out = sorted(k for k, v in ci.attrs.items() if v.op == "enum" and v.args[1] == k)
    if len(out) < 10:
        raise AnalysisError("the members of Model")
    return out


def decodes(p):
    return [e for e in events(p.st.trace) if e.name == "from_register_cache"]


def clsname(e):
    b = e.base
    return b.args[0].name if b is not None and b.op == "cls" else None


# -- facts ---------------------------------------------------------------------------------------------
def nothing(st, path):
    """The path knows that this attribute is None, empty or false."""
    for f, b in st.facts.items():
        if attr_path(f) == path and b is False:
            return True
        if f.op == "cmp" and b is (f.args[0] in ("is", "eq")) and f.args[0] in ("is", "eq", "isnot", "ne") and NONE in f.args[1:]:
            if any(attr_path(x) == path for x in f.args[1:]):
                return True
        if f.op == "cmp" and any(size_of(x) == path for x in f.args[1:]) and K(0) in f.args[1:] and b is (f.args[0] == "eq") and f.args[0] in ("eq", "ne", "gt"):
            return True
    return False


def size_of(t):
    return attr_path(t.args[1][0]) if t.op == "call" and t.args[0] == Term("ext", "len") and t.args[1] else None


def allows(I, st, member):
    """Can the detected model be this member on the path?"""
    for f, b in st.facts.items():
        if not any(attr_path(x) == CAPS + ".device_type" for x in subterms(f)):
            continue
        v = None
        if f.op == "cmp" and f.args[0] in ("in", "notin"):
            ks = I.kset_of(f.args[2], st)
            if ks is not None and attr_path(f.args[1]) == CAPS + ".device_type" and all(x.op == "enum" for x in ks):
                v = (member in {x.args[1] for x in ks}) == (f.args[0] == "in")
        elif f.op == "cmp" and f.args[0] in ("eq", "is", "ne", "isnot"):
            other = f.args[2] if attr_path(f.args[1]) == CAPS + ".device_type" else f.args[1]
            if other.op == "enum":
                v = (member == other.args[1]) == (f.args[0] in ("eq", "is"))
            elif other == NONE:
                v = f.args[0] in ("ne", "isnot")
        elif attr_path(f) == CAPS + ".device_type":
            v = True
        if v is None:
            v = evaluated(I, f, member)
        if v is not b:
            return False
    return True


def evaluated(I, f, member):
    """Any other test of the model: its value for this member."""
    me = Term("enum", I.cls("model.inverter:Model"), member)

    def hook(t, rec):
        if attr_path(t) == CAPS + ".device_type":
            return me
        if t.op == "enum":
            return t
        if t.op == "attr" and t.args[1] in ("name", "value", "_name_", "_value_"):
            x = rec(t.args[0])
            if isinstance(x, Term) and x.op == "enum":
                v = I.enum_value(x)
                if "name" in t.args[1]:
                    return x.args[1]
                if v is not None and is_k(v):
                    return kval(v)
        if t.op == "cmp" and t.args[0] == "is":
            return rec(t.args[1]) == rec(t.args[2])
        return NotImplemented

    try:
        return bool(value(f, {"hook": hook}))
    except Unknown:
        raise AnalysisError(f"a test of the model: {show(f)}") from None


def subterms(t):
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from subterms(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    yield from subterms(x)


# -- register banks ------------------------------------------------------------------------------------
def fetched(t):
    """(address, default or None, form) of a term that fetches a bank."""
    if t.op == "idx" and attr_path(t.args[0]) == BANKS:
        return t.args[1], None, "idx"
    if t.op == "call":
        name, base, rest = receiver_and_args(t.args[0], t.args[1])
        if name == "get" and base is not None and attr_path(base) == BANKS and rest:
            return rest[0], rest[1] if len(rest) > 1 else dict(t.args[2]).get("default"), "get"
    return None


def tolerant(I, fn, seen=()):
    """The accessor, or a helper it calls, subscripts the banks under a handler for the missing key."""
    import ast

    for n in ast.walk(fn.node):
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("KeyError", "LookupError", "Exception") for x in ast.walk(h.type)) for h in n.handlers):
            if any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "register_caches" for b in n.body for x in ast.walk(b)):
                return True
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in seen:
            _, v = I.cls("model.plant:Plant").lookup(n.func.attr)
            g = v.args[0] if v is not None and v.op == "fn" else None
            if g is not None and tolerant(I, g, (*seen, n.func.attr)):
                return True
    return False


def bank(I, st, t, fn=None):
    """(address, why it may be missing or None) of the bank handed to a decode."""
    g = fetched(t)
    if g is not None:
        a, default, form = g
        if form == "idx":
            return a, None if stored(st, a) is True or fn is not None and tolerant(I, fn) else "it may not have been read yet"
        if default is not None and default != NONE or present(st, t) is True or stored(st, a) is True:
            return a, None
        return a, "it may not have been read yet"
    if t.op == "ref":  # the empty stand-in: which bank was found missing?
        for f, b in st.facts.items():
            for x in subterms(f):
                g = fetched(x)
                if g is not None and present(st, x) is False:
                    return g[0], None
            if f.op == "cmp" and f.args[0] == "in" and attr_path(f.args[2]) == BANKS and b is False:
                return f.args[1], None
    raise AnalysisError(f"a register bank: {show(t)}")


def stored(st, addr):
    return next((b for f, b in st.facts.items() if f.op == "cmp" and f.args[0] == "in" and f.args[1] == addr and attr_path(f.args[2]) == BANKS), None)


def present(st, t):
    for f, b in st.facts.items():
        if f == t:
            return b
        if f.op == "cmp" and f.args[0] in ("is", "eq") and NONE in f.args[1:] and t in f.args[1:]:
            return not b
    return None


# -- single views --------------------------------------------------------------------------------------
def one(chk, I, fn, p, want, addr, accept_absent=False):
    """The path's result is the decode of this address by this class."""
    ds = [e for e in decodes(p) if e.res == p.val]
    where = chk.loc(I, fn)
    if not ds:
        chk.violation("no-view", fn.name, where, f"the view is {show(p.val)} instead of a decoded register bank ({facts_str(p.st)})")
        return False
    e = ds[-1]
    w = f"{fn.module.path}:{e.line()} ({fn.qual})"
    if clsname(e) not in ((want,) if isinstance(want, str) else want):
        chk.violation("wrong-layout", fn.name, w, f"the registers are decoded as {clsname(e)}, not {want} ({facts_str(p.st)})")
        return False
    a, missing = bank(I, p.st, e.arg(0, "register_cache"), fn)
    if not addr(a):
        chk.violation("wrong-bank", fn.name, w, f"the view reads the bank at {show(a)} ({facts_str(p.st)})")
        return False
    if missing:
        chk.violation("missing-bank", fn.name, w, f"the bank is used although {missing}")
        return False
    chk.ok("views: right class, right bank", f"{fn.name}: {clsname(e)} at {show(a)}")
    return True


def is_path(path):
    return lambda a: attr_path(a) == path


def inverter(chk, I, fn, paths, pol, members):
    for p in returns(chk, I, fn, paths):
        if nothing(p.st, CAPS):
            one(chk, I, fn, p, "SinglePhaseInverter", lambda a: is_k(a) and kval(a) == 0x11)
            continue
        for m in members:
            if allows(I, p.st, m):
                chk.ok("models decided")
                if not one(chk, I, fn, p, "ThreePhaseInverter" if m in THREE_PHASE else "SinglePhaseInverter", is_path(CAPS + ".inverter_address")):
                    break


def by_model(name, want, models):
    def f(chk, I, fn, paths, pol, members):
        for p in returns(chk, I, fn, paths):
            if nothing(p.st, CAPS):
                absent(chk, I, fn, p)
                continue
            for m in members:
                if allows(I, p.st, m):
                    chk.ok("models decided")
                    if not (one(chk, I, fn, p, want, is_path(CAPS + ".inverter_address")) if m in models else absent(chk, I, fn, p, m)):
                        break

    return f


def absent(chk, I, fn, p, m="an undetected plant"):
    if p.val == NONE:
        chk.ok("no view where there is no device")
        return True
    chk.violation("phantom-view", fn.name, chk.loc(I, fn), f"{m} is given the view {show(p.val)} ({facts_str(p.st)})")
    return False


def lv_bcu(chk, I, fn, paths, pol):
    for p in returns(chk, I, fn, paths):
        if nothing(p.st, CAPS) or nothing(p.st, CAPS + ".lv_bcu_address"):
            absent(chk, I, fn, p)
            continue
        if p.val == NONE:
            gone = [f for f in p.st.facts for x in subterms(f) if (g := fetched(x)) is not None and attr_path(g[0]) == CAPS + ".lv_bcu_address" and present(p.st, x) is False]
            gone += [f for f, b in p.st.facts.items() if f.op == "cmp" and f.args[0] == "in" and attr_path(f.args[1]) == CAPS + ".lv_bcu_address" and b is False]
            if gone:
                chk.ok("no view where there is no device")
            else:
                chk.violation("no-view", fn.name, chk.loc(I, fn), f"a recorded LV BCU whose registers are known has no view ({facts_str(p.st)})")
            continue
        one(chk, I, fn, p, "LvBcu", is_path(CAPS + ".lv_bcu_address"))


def returns(chk, I, fn, paths):
    out = []
    for p in paths:
        if p.kind == "return":
            out.append(p)
        else:
            chk.violation("raises", fn.name, chk.loc(I, fn), f"the accessor raises {show(p.val)} ({facts_str(p.st)})")
    return out


# -- lists of views ------------------------------------------------------------------------------------
def elements(I, st, v):
    """The (key, value) pairs, or values, an exact or summarised container holds."""
    while v.op in ("chain", "iter") and len(v.args) == 1:
        v = v.args[0]
    if v.op == "ref" and I.hget(st, v).kind in ("list", "dict"):
        o = I.hget(st, v)
        out = []
        for x in o.data.items() if isinstance(o.data, dict) else o.data:
            if isinstance(x, tuple) and not isinstance(x, Term) and x[0].op == "spread" and x[1].op == "ref":
                out += [tuple(y.args) if y.op == "tup" and len(y.args) == 2 else y for y in elements(I, st, x[1])]
            else:
                out.append(x)
        return out
    if v.op == "tup":
        return list(v.args)
    raise AnalysisError(f"a list of views: {show(v)}")


def elem_of(t):
    """The path of the list an element term ranges over."""
    if t.op != "elem":
        return None
    b = t.args[0]
    while b.op in ("chain", "view") or b.op == "call" and b.args[0] in (Term("ext", "list"), Term("ext", "tuple"), Term("ext", "iter")) and b.args[1]:
        b = b.args[1][0] if b.op == "call" else b.args[0]
    return attr_path(b)


def listed(chk, I, name, cls, addrs, fn, paths, pol):
    path = f"{CAPS}.{addrs}"
    where = chk.loc(I, fn)
    full = 0
    for p in returns(chk, I, fn, paths):
        els = None
        if nothing(p.st, CAPS):
            if name == "batteries":
                continue  # undetected: the bank scan of number_batteries decides
            els = elements(I, p.st, p.val)
            if els:
                chk.violation("phantom-view", name, where, f"an undetected plant is given views ({facts_str(p.st)})")
            else:
                chk.ok("no view where there is no device")
            continue
        els = elements(I, p.st, p.val)
        if nothing(p.st, path):
            if els:
                chk.violation("phantom-view", name, where, f"views are given although {path} is empty")
            else:
                chk.ok("no view where there is no device")
            continue
        if any(a[0] == "broke" for a in p.st.aux):
            chk.violation("incomplete", name, where, "the walk over the recorded addresses can stop before its end")
            continue
        if not els:
            if name == "aio_battery_modules" and any(b is False and f.op == "cmp" and f.args[0] == "in" and elem_of(f.args[1]) == path for f, b in p.st.facts.items()):
                chk.ok("no view where there is no device")
                continue
            if name == "aio_battery_modules" and any((g := fetched(x)) is not None and elem_of(g[0]) == path and present(p.st, x) is False for f in p.st.facts for x in subterms(f)):
                chk.ok("no view where there is no device")
                continue
            chk.violation("no-view", name, where, f"a recorded address has no view ({facts_str(p.st)})")
            continue
        for x in els:
            key = None
            if isinstance(x, tuple) and not isinstance(x, Term):
                key, x = x
            e = next((e for e in decodes(p) if e.res == x), None)
            if e is None:
                chk.violation("no-view", name, where, f"the list holds {show(x)} instead of a decoded register bank")
                continue
            w = f"{fn.module.path}:{e.line()} ({fn.qual})"
            if clsname(e) != cls:
                chk.violation("wrong-layout", name, w, f"the registers are decoded as {clsname(e)}, not {cls}")
                continue
            a, missing = bank(I, p.st, e.arg(0, "register_cache"), fn)
            extra = e.arg(1, "module_address") if cls in ("AioBatteryModule",) else a
            if elem_of(a) != path or key is not None and key != a or extra != a:
                chk.violation("wrong-bank", name, w, f"the view reads the bank at {show(a)}, filed under {show(key) if key is not None else show(extra)}")
            elif missing:
                chk.violation("missing-bank", name, w, f"the bank is used although {missing}")
            else:
                full += 1
                chk.ok("views: right class, right bank", f"{name}: {cls} at {show(a)}")
    if not full and not chk.findings:
        chk.violation("no-view", name, where, "no path decodes a recorded device")


# -- HV stacks -----------------------------------------------------------------------------------------
def summands(t):
    if t.op == "bin" and t.args[0] == "+":
        return summands(t.args[1]) + summands(t.args[2])
    return [t]


def const(ts):
    return sum(kval(x) for x in ts if is_k(x)), [x for x in ts if not is_k(x)]


def field_of(t, path, i):
    return t.op == "idx" and elem_of(t.args[0]) == path and t.args[1] == K(i)


def spread(t):
    """t as constant + terms + positions in ranges: an element of range(a, b) is a plus its position."""
    k, rest, ranges = 0, [], []
    for x in summands(t):
        if is_k(x):
            k += kval(x)
        elif x.op in ("elem", "pos") and x.args and span(x.args[0]) is not None:
            R = x.args[0]
            ranges.append(R)
            if x.op == "elem":
                c, r, rr = spread(span(R)[0])
                k, rest, ranges = k + c, rest + r, ranges + rr
        else:
            rest.append(x)
    return k, rest, ranges


def span(R):
    """(first, end) of a range with step 1."""
    a = [x for x in (R.args[1] if R.op == "call" and R.args[0] == Term("ext", "range") else R.args if R.op == "range" else ()) if isinstance(x, Term)]
    if len(a) == 1:
        return K(0), a[0]
    return (a[0], a[1]) if len(a) == 2 or len(a) == 3 and a[2] == K(1) else None


def as_long_as(R, path):
    """The range has as many members as this stack has modules."""
    a, b = span(R)
    (k, x, r), (k2, y, r2) = spread(a), spread(b)
    if k != k2 or r or r2:
        return False
    for t in x:
        if t not in y:
            return False
        y.remove(t)
    return len(y) == 1 and field_of(y[0], path, 1)


def counted(t, path):
    """0, 1, ... up to this stack's module count."""
    k, rest, ranges = spread(t)
    return k == 0 and not rest and len(ranges) == 1 and as_long_as(ranges[0], path)


def stacks(chk, I, fn, paths, pol):
    path = CAPS + ".bcu_stacks"
    where = chk.loc(I, fn)
    full = modules = 0
    for p in returns(chk, I, fn, paths):
        els = elements(I, p.st, p.val)
        if nothing(p.st, CAPS) or nothing(p.st, path):
            if els:
                chk.violation("phantom-view", fn.name, where, "stacks are given although none is recorded")
            else:
                chk.ok("no view where there is no device")
            continue
        if any(a[0] == "broke" for a in p.st.aux):
            chk.violation("incomplete", fn.name, where, "the walk over the recorded stacks can stop before its end")
            continue
        evs = events(p.st.trace)
        made = {e.res: e for e in evs if e.name == "HvStack"}
        if not els:
            chk.violation("no-view", fn.name, where, f"a recorded stack has no view ({facts_str(p.st)})")
        for x in els:
            s = made.get(x)
            if s is None:
                raise AnalysisError(f"hv_stacks holds {show(x)}")
            w = f"{fn.module.path}:{s.line()} ({fn.qual})"
            da, bcu, bmus = s.arg(0, "device_address"), s.arg(1, "bcu"), s.arg(2, "bmus")
            e = next((e for e in decodes(p) if e.res == bcu), None)
            if e is None or clsname(e) != "Bcu":
                chk.violation("wrong-layout", fn.name, w, f"the stack's controller is {show(bcu) if bcu is not None else bcu}")
                continue
            a, missing = bank(I, p.st, e.arg(0, "register_cache"), fn)
            k, rest = const(summands(a))
            if missing:
                chk.violation("missing-bank", fn.name, w, f"the controller's bank is used although {missing}")
            elif k != 0x70 or len(rest) != 1 or not field_of(rest[0], path, 0) or da is None or da != a and const(summands(da)) != (k, rest):
                chk.violation("wrong-bank", fn.name, w, f"the controller is read at {show(a)} and filed under {show(da) if da is not None else da}")
            else:
                full += 1
                chk.ok("views: right class, right bank", f"hv_stacks: Bcu at {show(a)}")
            ys = elements(I, p.st, bmus) if bmus is not None else []
            if not ys and any(counted(t, path) for f in p.st.facts for t in subterms(f)):
                chk.violation("no-view", fn.name, w, f"a module of a recorded stack has no view ({facts_str(p.st)})")
            for y in ys:
                modules += bmu(chk, I, fn, p, pol, path, y)
    if not chk.findings and not (full and modules):
        chk.violation("no-view", fn.name, where, "no path decodes a stack with its modules")


def bmu(chk, I, fn, p, pol, path, y):
    e = next((e for e in decodes(p) if e.res == y), None)
    where = chk.loc(I, fn)
    if e is None or clsname(e) != "Bmu":
        chk.violation("wrong-layout", fn.name, where, f"a module of the stack is {show(y)}")
        return 0
    w = f"{fn.module.path}:{e.line()} ({fn.qual})"
    a, missing = bank(I, p.st, e.arg(0, "register_cache"), fn)
    i = e.arg(1, "bmu_index")
    if missing:
        chk.violation("missing-bank", fn.name, w, f"a module's bank is used although {missing}")
        return 0
    k, base, ranges = spread(a)
    if i is None or not counted(i, path):
        chk.violation("wrong-bank", fn.name, w, f"the module's index is {show(i) if i is not None else i}")
        return 0
    same = ranges == spread(i)[2]
    if same and not base:
        chk.violation("wrong-bank", fn.name, w, f"the modules of every stack are read from {k:#x} on: the second stack shows the first one's modules")
        return 0
    if len(base) == 1 and base[0].op == "havoc" and (same or not ranges):
        return running(chk, I, fn, pol, path, base[0], k, w, 0 if same else 1)
    if any(s.op == "call" for x in base for s in subterms(x)):
        raise AnalysisError(f"the address of a module: {show(a)}")
    chk.violation("wrong-bank", fn.name, w, f"the module is read at {show(a)} under index {show(i)}")
    return 0


def running(chk, I, fn, pol, path, sym, k, w, step):
    """The loop-carried address starts at 0x50 and advances past the modules of each stack.

    step 0: it is the address of the stack's first module and grows by the module count per stack;
    step 1: it is the address of the module itself and grows by one per module and by nothing else.
    """
    name = sym.args[1]

    def values(st):
        return [v for o in st.h.values() if o.kind == "env" for n, v in o.data.items() if n == name]

    started = 0
    for node, st in pol.enters:
        for v in values(st):
            if is_k(v):
                started += 1
                if kval(v) + k != 0x50:
                    chk.violation("wrong-bank", fn.name, w, f"the first module of the first stack is read at {kval(v) + k:#x}")
                    return 0
    grew, others = {}, []
    for node, h, e in pol.ends:
        for x in values(h):
            if x.op != "havoc":
                continue
            for v in values(e):
                c, rest = const(summands(v))
                more = [y for y in rest if y != x]
                if rest.count(x) == 1 and (step == 0 and c == 0 and len(more) == 1 and field_of(more[0], path, 1) or step == 1 and c == 1 and not more):
                    grew[id(node)] = True
                elif not (v == x or step == 1 and c in (0, 1) and len(rest) == 1 and rest[0].op == "havoc" and rest[0].args[1] == name):
                    chk.violation("wrong-bank", fn.name, w, f"after a stack the next module address is {show(v)}")
                    return 0
                elif v == x:
                    others.append(id(node))
    if started and grew and not any(o in grew for o in others):
        chk.ok("views: right class, right bank", "hv_stacks: modules at consecutive addresses")
        return 1
    chk.violation("wrong-bank", fn.name, w, "the module address does not advance past the modules of every stack before")
    return 0


# -- layouts -------------------------------------------------------------------------------------------
class L(Policy):
    max_depth = 6

    def inline(self, fn, interp, st):
        return True

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        if name in ("build", "model_validate", "decode_cells_temps_serial") or callee.op == "cls":
            if callee.op == "cls":
                name, base, rest = "new", callee, list(args)
            res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), interp.uid(node))
            return [(st.emit(Ev(name, base, rest, kwargs, node, loops(interp.ctx), None, res)), res)]
        return None


def layouts(chk, I):
    for q in list(LAYOUT) + list(CELLS):
        ci = I.cls(q)
        chk.require(ci is not None, q)
        _, v = ci.lookup("from_register_cache")
        chk.require(v is not None and v.op == "fn", q + ".from_register_cache")
        fn = v.args[0]
        where = chk.loc(I, fn)
        I.policy = L()
        for p in chk.explore(I, fn):
            evs = events(p.st.trace)
            news = [e for e in evs if e.name == "new"]
            cells = [e for e in evs if e.name == "decode_cells_temps_serial"]
            mv = next((e for e in evs if e.name == "model_validate" and e.res == p.val), None)
            bankp = Term("param", "register_cache")
            if q in LAYOUT:
                e = news[-1] if news else None
                good = mv is not None and e is not None and e.base.args[0].name == LAYOUT[q] and e.arg(0, "cache") == bankp
                got = e.base.args[0].name if e is not None and e.base.op == "cls" else None
            else:
                e = cells[-1] if cells else None
                good = mv is not None and e is not None and e.arg(0, "register_cache") == bankp and e.arg(1, "base") in (None, K(0))
                got = "decode_cells_temps_serial"
            if good:
                chk.ok("layouts", f"{ci.name} from {got}")
            else:
                chk.violation("wrong-layout", ci.name + ".from_register_cache", where, f"{ci.name} is built from {got} over {show(e.args[0]) if e is not None and e.args else None}")
