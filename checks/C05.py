"""Every command helper writes exactly the documented registers and values."""
from sa import spec_commands as SC
from sa.cmds import attr_of, command_functions, command_methods, explore_command, params_of, requests_of, slot_maps, values_of, write_request_class
from sa.core import AnalysisError, K, Term, is_k, kval, show
from sa.match import match_reg, match_value

TITLE = "Every command helper writes only its documented registers and values"
RULE = (
    "For each public command function, and each command method of a device object, every abstract path is explored; "
    "on every returning path the list of write requests must equal the command's entry in the specification table "
    "(register, value as a function of the arguments, tier), the accepted argument range must be the documented one, "
    "and a bool or non-integral number must not be taken for an integer."
)


def compare(chk, I, label, fn, paths, spec, tier, full_range=True):
    """Compare every returning path of one command with its specification."""
    where = chk.loc(I, fn)
    W = write_request_class(I)
    rets = [p for p in paths if p.kind == "return"]
    if not rets:
        chk.violation("never-builds", label, where, "no argument is accepted: every path raises")
        return
    cover = {}
    idx_cover = {}
    bad = 0
    for p in rets:
        reqs = requests_of(I, p.st, p.val)
        if reqs is None:
            raise AnalysisError(f"{label}: the returned list could not be resolved: {show(p.val)}")
        rest = list(range(len(spec)))
        writes = []
        for r in reqs:
            o = I.hget(p.st, r) if r.op == "ref" else None
            if o is None or o.cls is None or not o.cls.is_subclass(W):
                raise AnalysisError(f"{label}: an element of the returned list is not a resolved write request: {show(r)}")
            writes.append((attr_of(I, p.st, r, "register"), attr_of(I, p.st, r, "value"), attr_of(I, p.st, r, "installer"), attr_of(I, p.st, r, "device_address")))
        for rt, vt, inst, dev in writes:
            best = None
            for i in rest:
                pr, ic = match_reg(I, p.st, rt, spec[i][0])
                if pr is None:
                    best = (i, ic)
                    break
            if best is None:
                msgs = [match_reg(I, p.st, rt, spec[i][0])[0] for i in (rest or range(len(spec)))]
                chk.violation("register", label, where, f"{msgs[0]}" if rest else f"writes register {show(rt)} in addition to the documented ones")
                bad += 1
                continue
            i, ic = best
            rest.remove(i)
            if ic:
                idx_cover.setdefault(i, set()).update(ic)
            prob, info = match_value(I, p.st, vt, spec[i][1])
            if prob is not None:
                chk.violation("value", f"{label}:{reg_name(spec[i][0])}", where, prob)
                bad += 1
            elif info is not None:
                cover.setdefault(i, []).append(info)
            want = K(tier == "installer")
            if inst != want:
                chk.violation("tier", label, where, f"installer flag is {show(inst)}, expected {kval(want)}")
                bad += 1
            if values_of(I, p.st, dev) != [0x11]:
                chk.violation("address", label, where, f"addressed to device {show(dev)} instead of 0x11")
                bad += 1
            chk.count("writes compared")
        if rest:
            chk.violation("register", label, where, "does not write register " + ", ".join(reg_name(spec[i][0]) for i in rest) + " on every path")
            bad += 1
    if bad:
        return
    for i, (reg, val) in enumerate(spec):
        infos = cover.get(i, [])
        if val[0] == "lin" and full_range:
            lo = min((x[0] for x in infos if x[0] is not None), default=None)
            hi = max((x[1] for x in infos if x[1] is not None), default=None)
            if any(x[0] is None for x in infos):
                lo = None
            if any(x[1] is None for x in infos):
                hi = None
            if val[3] is not None and (lo, hi) != (val[3], val[4]):
                chk.violation("range", f"{label}:{reg_name(reg)}", where, f"accepts [{lo}, {hi}] instead of the documented [{val[3]}, {val[4]}] (register units)")
        if val[0] == "enum":
            got = set().union(*infos) if infos else set()
            if got != val[2]:
                chk.violation("range", f"{label}:{reg_name(reg)}", where, f"accepts {sorted(got)} instead of the documented {sorted(val[2])}")
        if val[0] == "bool" and not ({0, 1} <= set(infos) or "both" in infos):
            chk.violation("value", f"{label}:{reg_name(reg)}", where, f"only ever writes {sorted(set(map(str, infos)))}")
        if val[0] == "hhmm" and 1 not in infos:
            chk.violation("value", f"{label}:{reg_name(reg)}", where, "never writes the time it is given")
        if isinstance(reg, tuple) and full_range and idx_cover.get(i, set()) != set(reg[1]):
            chk.violation("range", f"{label}:{reg_name(reg)}", where, f"accepts slot indices {sorted(idx_cover.get(i, set()))} instead of {sorted(reg[1])}")
    chk.ok("commands", f"{label}: {len(rets)} path(s), {len(spec)} write(s)")


def reg_name(reg):
    if isinstance(reg, int):
        return f"HR{reg}"
    v = sorted(reg[1].values())
    return f"HR{v[0]}..{v[-1]}"


def check(chk):
    I = chk.interp()
    chk.require(I.cls("client.commands:RegisterMap") is not None or True, "commands module")
    simple, inst, conf = SC.simple(), SC.installer(), SC.confirmed()
    maps = slot_maps(I)
    fns = dict(command_functions(I))
    slot_names = set(SC.slotted(SC.EXTENDED))
    for name in list(simple) + list(inst) + list(conf) + sorted(slot_names):
        chk.require(name in fns, f"command function {name}()")
    for name, fn in fns.items():
        if name in simple:
            compare(chk, I, name, fn, chk.explore(I, fn), simple[name], "standard")
        elif name in inst or name in conf:
            compare(chk, I, name, fn, chk.explore(I, fn), inst.get(name) or conf[name], "installer")
        elif name in slot_names:
            for mname, ref in maps.items():
                spec = SC.SLOT_MAPS.get(mname)
                if spec is None:
                    continue
                if name.endswith("_2") and len(spec["charge"]) < 2:
                    continue
                compare(chk, I, f"{name}[{mname}]", fn, explore_command(chk, I, fn, ref), SC.slotted(spec)[name], "standard")
        else:
            chk.count("commands without a table entry")
            generic(chk, I, name, fn)
    methods(chk, I, simple)


def generic(chk, I, name, fn):
    """A command the table does not know: nothing is claimed beyond C01/C07."""
    chk.notes.append(f"{name} has no specification entry")


def methods(chk, I, simple):
    """Command methods of device objects write what the same-named function writes."""
    for cname, sm, overrides in (
        ("model.inverter:SinglePhaseInverter", SC.EXTENDED, {}),
        ("model.inverter_threephase:ThreePhaseInverter", SC.THREE_PHASE, SC.THREE_PHASE_METHODS),
        ("model.ems:Ems", None, {}),
    ):
        ci = I.cls(cname)
        chk.require(ci is not None, cname)
        ms = command_methods(I, ci)
        chk.count("device classes with commands")
        sl = SC.slotted(sm) if sm else {}
        for n, fn in sorted(ms.items()):
            spec = overrides.get(n) or sl.get(n) or simple.get(n)
            if spec is None:
                chk.count("commands without a table entry")
                continue
            self_t = Term("param", "self")
            I.types[self_t] = ("cls", ci)
            paths = chk.explore(I, fn, {"self": self_t})
            compare(chk, I, f"{ci.name}.{n}", fn, paths, spec, "standard", full_range=not (n in sl and cname.endswith("SinglePhaseInverter")))
        chk.require(set(overrides) <= set(ms), f"{cname} offers {sorted(set(overrides) - set(ms))}")


MINIMUMS = [("commands", 150), ("writes compared", 400), ("device classes with commands", 3)]
