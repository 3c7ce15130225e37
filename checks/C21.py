"""Persisted capabilities reload exactly."""
from sa.check import facts_str
from sa.core import K, NONE, Term, is_k, kval, show
from sa.plantworld import World, WorldPolicy, known_int, plant_fields

TITLE = "Saved capabilities load back exactly, and older saved forms still load"
RULE = (
    "PlantCapabilities.to_dict() and then from_dict() are followed for every model, for empty and filled lists and for absent and present optional fields, with every address and count an unknown integer: each "
    "declared field must come back as the very value it held, and everything stored must be a JSON value. Older forms (integer addresses, enum values, *_slave(s) keys, null lists, no version) must load to the "
    "same values; another schema version must be refused with ValueError; the stored dict is neither changed nor shared; validation must not alter what was loaded."
)
CAPS = "model.plant:PlantCapabilities"
LEGACY = {"inverter_slave": "inverter_address", "meter_slaves": "meter_addresses", "lv_battery_slaves": "lv_battery_addresses", "bcu_slaves": "bcu_stacks"}
INT = Term("ext", "int")


class Case:
    """One capabilities value with unknown numbers in it."""

    def __init__(self, chk, I, what, model="HYBRID_GEN1", n=1, optional=True):
        self.chk, self.I, self.what, self.good = chk, I, what, True
        self.w = World(I, {})
        self.cls = I.cls(CAPS)
        self.model = Term("enum", I.cls("model.inverter:Model"), model)
        self.fields = {}
        self.seq = 0
        for name, ann in fields(self.cls):
            self.fields[name] = self.value(name, ann, n, optional)

    def number(self, name, lo=0, hi=65535):
        self.seq += 1
        t = Term("param", f"{name}_{self.seq}")
        known_int(self.I, self.w.st, t, lo, hi)
        self.w.st.facts = {**self.w.st.facts, Term("isinstance", t, INT): True, Term("isinstance", t, Term("ext", "bool")): False}
        return t

    def value(self, name, ann, n, optional):
        if name == "device_type":
            return self.model
        if "None" in ann or "Optional" in ann:
            return self.number(name) if optional else NONE
        if ann.startswith("list[tuple"):
            return [(self.number(name, 0, 15), self.number(name, 0, 255)) for _ in range(n)]
        if ann.startswith("list"):
            return [self.number(name, 0, 255) for _ in range(n)]
        return self.number(name, 0, 255)

    def heap(self, v):
        if isinstance(v, list):
            return self.w.list([self.heap(x) for x in v])
        if isinstance(v, tuple):
            return Term("tup", *[self.heap(x) for x in v])
        return v

    def instance(self):
        return self.w.inst(CAPS, **{k: self.heap(v) for k, v in self.fields.items()})

    def fn(self, name):
        f = self.I.func(f"{CAPS}.{name}")
        self.chk.require(f is not None, f"PlantCapabilities.{name}")
        return f

    def run(this, name, /, **args):
        this.I.stats["steps"] = 0
        this.I.policy = WorldPolicy(this.I)
        out = list(this.chk.explore(this.I, this.fn(name), args, st=this.w.st))
        this.chk.count("paths followed", len(out))
        return out

    def fail(self, name, rule, msg):
        if self.good:
            self.chk.violation(rule, f"{self.what}", self.chk.loc(self.I, self.fn(name)), f"{self.what}: {msg}")
        self.good = False

    def done(self, kind):
        if self.good:
            self.chk.ok(kind, self.what)

    def deep(self, st, v):
        """The value with its lists and dicts spelled out."""
        if v.op == "ref":
            o = self.I.hget(st, v)
            if o.kind == "list":
                return [self.deep(st, x) for x in o.data]
            if o.kind == "dict":
                return {kval(k) if is_k(k) else k: self.deep(st, x) for k, x in o.data}
            return v
        if v.op == "tup":
            return tuple(self.deep(st, x) for x in v.args)
        return v

    def load(self, data, want=None, clean=None):
        """from_dict(data) must give exactly the wanted fields on every path and leave data as it was."""
        want = self.fields if want is None else want
        ref = self.stored(data)
        before = self.deep(self.w.st, ref)
        parts = self.parts(self.w.st, ref)
        out = self.run("from_dict", cls=Term("cls", self.cls), data=ref)
        if not out:
            self.fail("from_dict", "loads", "nothing is loaded")
        for p in out:
            if p.kind != "return":
                self.fail("from_dict", "loads", f"is refused with {show(p.val)[:120]}{when(p)}")
                continue
            o = self.I.hget(p.st, p.val) if p.val.op == "ref" else None
            if o is None or o.kind != "inst" or o.cls is not self.cls:
                self.fail("from_dict", "loads", f"gives {show(p.val)[:120]}, not capabilities{when(p)}")
                continue
            for k in {**want, **o.data}:
                got = self.deep(p.st, o.data[k]) if k in o.data else None
                if got is None and k in want and want[k] in (NONE, []):
                    continue            # left at its default, which is the same
                if not same(got, want.get(k)):
                    self.fail("from_dict", "round trip", f"{k} comes back as {text(got)} instead of {text(want.get(k))}{when(p)}")
            if self.deep(p.st, ref) != before:
                self.fail("from_dict", "unchanged input", f"the stored dict is changed{when(p)}")
            shared = set(self.parts(p.st, p.val)) & set(parts)
            if shared:
                self.fail("from_dict", "shared lists", f"the capabilities share a list with the stored dict{when(p)}")
            self.validated(p, o)
        return out

    def validated(self, p, o):
        """What pydantic is handed must pass the model validator unaltered."""
        if not self.good:
            return
        f = self.I.func(f"{CAPS}._accept_legacy_aliases")
        if f is None:
            return
        save = self.w.st
        self.w.st = p.st.copy()
        ref = self.w.dict([(K(k), v) for k, v in o.data.items()])
        before = self.deep(self.w.st, ref)
        for q in self.run("_accept_legacy_aliases", cls=Term("cls", self.cls), data=ref):
            got = self.deep(q.st, q.val) if q.kind == "return" else show(q.val)
            if got != before:
                self.fail("_accept_legacy_aliases", "validation", f"validation turns {text(before)} into {text(got)}{when(q)}")
        self.w.st = save

    def stored(self, data):
        if isinstance(data, Term):
            return data
        return self.w.dict([(K(k), self.json(v)) for k, v in data.items()])

    def json(self, v):
        return self.w.list([self.json(x) for x in v]) if isinstance(v, (list, tuple)) else v

    def parts(self, st, v):
        """Every mutable object reachable."""
        out, todo = [], [v]
        while todo:
            t = todo.pop()
            if t.op == "tup":
                todo += t.args
            if t.op != "ref" or t in out:
                continue
            o = self.I.hget(st, t)
            out.append(t)
            todo += o.data.values() if o.kind == "inst" else [x for kv in o.data for x in kv] if o.kind == "dict" else list(o.data)
        return [t for t in out if t is not v]

    def save(self, me):
        """to_dict(): the dict, on the single path it has."""
        out = self.run("to_dict", self=me)
        before = {k: self.deep(self.w.st, v) for k, v in self.I.hget(self.w.st, me).data.items()}
        res = None
        for p in out:
            if p.kind != "return" or p.val.op != "ref" or self.I.hget(p.st, p.val).kind != "dict":
                self.fail("to_dict", "saves", f"ends in {show(p.val)[:120]}{when(p)}")
                continue
            if {k: self.deep(p.st, v) for k, v in self.I.hget(p.st, me).data.items()} != before:
                self.fail("to_dict", "unchanged", f"saving changes the capabilities{when(p)}")
            bad = not_json(self.I, p.st, p.val)
            if bad is not None:
                self.fail("to_dict", "json", f"{text(bad)} is stored, which is not a JSON value{when(p)}")
            if set(self.parts(p.st, me)) & set(self.parts(p.st, p.val)):
                self.fail("to_dict", "shared lists", f"the stored dict shares a list with the capabilities{when(p)}")
            self.w.st = p.st
            res = p.val
            if self.good:
                self.load(res)
        return res


def fields(cls):
    return [(n, ann.replace("typing.", "").replace("List[", "list[").replace("Tuple[", "tuple[")) for n, ann, _ in plant_fields(cls) if not ann.startswith("ClassVar") and not n.startswith(("_", "model_"))]


def when(p):
    f = facts_str(p.st)
    return f" (when {f[:160]})" if f else ""


def text(v):
    if isinstance(v, Term):
        return show(v)
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {text(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return ("[%s]" if isinstance(v, list) else "(%s)") % ", ".join(text(x) for x in v)
    return str(v)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def not_json(I, st, v):
    """Something in v that json.dumps() would refuse or not give back."""
    if is_k(v):
        return None if isinstance(kval(v), (str, int, float, bool, type(None))) else v
    if v.op == "fstr":
        return None
    if v.op == "ref":
        o = I.hget(st, v)
        if o.kind == "list":
            return next((b for b in (not_json(I, st, x) for x in o.data) if b is not None), None)
        if o.kind == "dict":
            bad = next((k for k, _ in o.data if not (is_k(k) and isinstance(kval(k), str))), None)
            return bad if bad is not None else next((b for b in (not_json(I, st, x) for _, x in o.data) if b is not None), None)
        return v
    return None if I.types.get(v) in (("ext", "int"), ("ext", "str")) or I.known(st, Term("isinstance", v, INT)) else v


def check(chk):
    I = chk.interp()
    cls = I.cls(CAPS)
    names = [n for n, _ in fields(cls)]
    chk.count("declared fields", len(names))
    chk.require(len(names) >= 9, f"the fields of PlantCapabilities ({names})")
    chk.parallel([lambda f=f: f(chk, I) for f in (round_trips, older, versions, aliases)])


def models(I):
    return I.cls("model.inverter:Model").enum_members


def round_trips(chk, I):
    for m in models(I):
        for n, opt in ((0, False), (1, True), (2, True)):
            c = Case(chk, I, f"{m} with {n} of each device{'' if opt else ' and no optional field'}", m, n, opt)
            c.save(c.instance())
            c.done("round trips")
    # fields vary alone, so that two may not stand in for one another
    base = Case(chk, I, "x")
    for name in base.fields:
        if name == "device_type":
            continue
        c = Case(chk, I, f"only {name} set", "HYBRID_HV_GEN3", 0, False)
        c.fields[name] = c.value(name, dict(fields(c.cls))[name], 3, True)
        c.save(c.instance())
        c.done("round trips")


def older(chk, I):
    """The forms written before versions were stored."""
    members = models(I)
    for m in members:
        value = I.cls("model.inverter:Model").keywords[("member", m)]
        c = Case(chk, I, f"a version-less dict for {m} with integer addresses", m, 2)
        c.load({**c.fields, "device_type": value if isinstance(value, Term) else K(value)})
        c.done("older forms")
        for what, dt in (("name", K(m)), ("member", c.model)):
            c = Case(chk, I, f"the device type given as {what}: {m}", m, 1)
            c.load({**c.fields, "device_type": dt if what == "name" else c.model})
            c.done("older forms")
    for m, number in (("HYBRID", 2), ("AC", 3), ("ALL_IN_ONE", 8), ("POLAR", 21), ("HYBRID_GEN4", 83)):
        c = Case(chk, I, f"the device type stored as the number {number}", m, 1)
        c.load({**c.fields, "device_type": K(number)})
        c.done("older forms")
    for old, new in LEGACY.items():
        for version in (None, K(1)):
            c = Case(chk, I, f"{old} instead of {new}{'' if version is None else ' with a version'}", "HYBRID_HV_GEN3", 2)
            c.load({**{k: v for k, v in c.fields.items() if k != new}, old: c.fields[new], "device_type": K("HYBRID_HV_GEN3"), **({} if version is None else {"schema_version": version})})
            c.done("older forms")
    c = Case(chk, I, "every legacy key at once", "HYBRID_GEN1", 2)
    c.load({**{k: v for k, v in c.fields.items() if k not in LEGACY.values()}, **{o: c.fields[n] for o, n in LEGACY.items()}, "device_type": K("HYBRID_GEN1")})
    c.done("older forms")
    lists = [n for n, ann in fields(I.cls(CAPS)) if ann.startswith("list")]
    for what, value in (("null", NONE), ("missing", None)):
        for name in lists:
            c = Case(chk, I, f"{name} {what}", "AC", 2)
            data = {**c.fields, "device_type": K("AC"), "schema_version": K(1)}
            data.pop(name)
            if value is not None:
                data[name] = value
            c.load(data, {**c.fields, name: []})
            c.done("older forms")
        for name in ("lv_bcu_address", "arm_firmware_version"):
            c = Case(chk, I, f"{name} {what}", "AC", 1)
            data = {**c.fields, "device_type": K("AC"), "schema_version": K(1)}
            data.pop(name)
            if value is not None:
                data[name] = value
            c.load(data, {**c.fields, name: NONE})
            c.done("older forms")


def versions(chk, I):
    for what, v in (("another number", None), ("0", K(0)), ("2", K(2)), ("the text '1'", K("1")), ("the text '2.0.0'", K("2.0.0"))):
        c = Case(chk, I, f"a stored schema_version of {what}", "AC", 1)
        if v is None:
            v = c.number("version", 2, 10**6)
        ref = c.stored({**c.fields, "device_type": K("AC"), "schema_version": v})
        out = c.run("from_dict", cls=Term("cls", c.cls), data=ref)
        for p in out:
            if p.kind != "raise" or not raises(I, p.val, "ValueError"):
                c.fail("from_dict", "version", f"is not refused with ValueError but gives {show(p.val)[:100]}{when(p)}")
        c.done("versions")
    for v in (K(1), NONE):
        c = Case(chk, I, f"a stored schema_version of {show(v)}", "AC", 1)
        c.load({**c.fields, "device_type": K("AC"), "schema_version": v})
        c.done("versions")


def raises(I, exc, name):
    t = exc.args[0] if exc.op == "exc" else exc
    return t.op == "ext" and t.args[0] == name or t.op == "cls" and name in t.args[0].ext_bases()


def aliases(chk, I):
    """Keys handed straight to validation: the same renaming, an explicit address kept, a missing one filled in."""
    for m in models(I):
        for give in (True, False):
            c = Case(chk, I, f"validating {m} {'with' if give else 'without'} an inverter address", m, 1)
            data = {"device_type": c.model, **({"inverter_address": c.fields["inverter_address"]} if give else {})}
            for q in c.run("_accept_legacy_aliases", cls=Term("cls", c.cls), data=c.stored(data)):
                got = c.deep(q.st, q.val) if q.kind == "return" else {"raises": q.val}
                want = {"device_type": c.model, "inverter_address": c.fields["inverter_address"] if give else K(0x11)}
                if got != want:
                    c.fail("_accept_legacy_aliases", "validation", f"gives {text(got)} instead of {text(want)}{when(q)}")
            c.done("validation")
    for old, new in LEGACY.items():
        c = Case(chk, I, f"validating {old}", "AC", 2)
        data = {"device_type": c.model, "inverter_address": c.fields["inverter_address"], **{k: v for k, v in c.fields.items() if k == new}}
        renamed = {(old if k == new else k): v for k, v in data.items()}
        for q in c.run("_accept_legacy_aliases", cls=Term("cls", c.cls), data=c.stored(renamed)):
            got = c.deep(q.st, q.val) if q.kind == "return" else {"raises": q.val}
            want = {k: v if not isinstance(v, list) else [list(x) if isinstance(x, tuple) else x for x in v] for k, v in data.items()}
            if got != want:
                c.fail("_accept_legacy_aliases", "validation", f"gives {text(got)} instead of {text(want)}{when(q)}")
        c.done("validation")
        c = Case(chk, I, f"validating both {old} and {new}", "AC", 2)
        for q in c.run("_accept_legacy_aliases", cls=Term("cls", c.cls), data=c.stored({**c.fields, old: c.fields[new]})):
            if q.kind != "raise" or not raises(I, q.val, "TypeError"):
                c.fail("_accept_legacy_aliases", "validation", f"is not refused with TypeError but gives {show(q.val)[:100]}{when(q)}")
        c.done("validation")
