"""Destructive and grid-protection commands build nothing without an explicit confirmation."""
from sa import spec_commands as SC
from sa.cmds import attr_of, command_functions, command_methods, explore_command, params_of, requests_of, slot_maps, values_of, write_request_class
from sa.check import facts_str
from sa.core import AnalysisError, K, NONE, Term, is_k, kval, show

TITLE = "Grid-protection and destructive writes need an explicit confirmation"
RULE = (
    "Every public command function and device command method is explored; on each path that returns a request for a "
    "grid-protection (63-83) or irreversible (162, 1016, 5003, 5004) register, some argument that is off or required "
    "by default must be known true on that path, and the default call must have no returning path."
)
GUARDED = SC.GRID_PROTECTION | SC.DESTRUCTIVE


def opt_in(I, fn):
    """Parameters that refuse unless given: a falsy default, or keyword-only with no default."""
    out = {p for p, d in fn.defaults.items() if is_k(d) and not kval(d)}
    out |= {p.arg for p in fn.node.args.kwonlyargs if p.arg not in fn.defaults}
    if fn.wrapped is not None:
        own = {p.arg for p in fn.node.args.args + fn.node.args.kwonlyargs}
        out |= opt_in(I, fn.wrapped) - own
    return out


def check(chk):
    I = chk.interp()
    W = write_request_class(I)
    chk.require(W is not None, "WriteHoldingRegisterRequest")
    fns = dict(command_functions(I))
    seen = set()
    maps = slot_maps(I)
    for name, fn in sorted(fns.items()):
        pos, kwo, _, _ = params_of(fn)
        variants = [None]
        if "slot_map" in pos + kwo:
            variants = list(maps.values())
        for sm in variants:
            seen |= one(chk, I, W, name, fn, explore_command(chk, I, fn, sm))
    for cname in ("model.inverter:SinglePhaseInverter", "model.inverter_threephase:ThreePhaseInverter", "model.ems:Ems"):
        ci = I.cls(cname)
        chk.require(ci is not None, cname)
        for n, fn in sorted(command_methods(I, ci).items()):
            self_t = Term("param", "self")
            I.types[self_t] = ("cls", ci)
            seen |= one(chk, I, W, f"{ci.name}.{n}", fn, chk.explore(I, fn, {"self": self_t}))
    # all the documented commands must have been recognised as such
    for name in SC.confirmed():
        chk.require(name in fns, f"command function {name}()")
    missing = {r for r in GUARDED} - seen
    if missing and not chk.findings:
        chk.notes.append(f"no command writes {sorted(missing)}")


def one(chk, I, W, label, fn, paths):
    hit = set()
    optional = None
    for p in paths:
        if p.kind != "return":
            continue
        reqs = requests_of(I, p.st, p.val)
        if reqs is None:
            raise AnalysisError(f"{label}: the returned list could not be resolved: {show(p.val)}")
        regs = set()
        for r in reqs:
            o = I.hget(p.st, r) if r.op == "ref" else None
            if o is None or o.cls is None or not o.cls.is_subclass(W):
                raise AnalysisError(f"{label}: an element of the returned list is not a resolved write request: {show(r)}")
            t = attr_of(I, p.st, r, "register")
            vs = values_of(I, p.st, t)
            if vs is None:
                raise AnalysisError(f"{label}: register {show(t)} is not finite")
            regs |= set(vs)
        g = regs & GUARDED
        if not g:
            chk.ok("command paths without guarded registers")
            continue
        hit |= g
        if optional is None:
            optional = opt_in(I, fn)
        conf = [q for q in optional if I.known(p.st, Term("param", q)) is True]
        where = chk.loc(I, fn)
        if not conf:
            chk.violation("unconfirmed", f"{label}:HR{'/'.join(map(str, sorted(g)))}", where, f"builds a write to register(s) {sorted(g)} on a path where no opt-in argument is known true ({facts_str(p.st)})")
        else:
            chk.ok("confirmed paths", f"{label}: HR{sorted(g)} only when {conf[0]}")
    return hit


MINIMUMS = [("confirmed paths", 25), ("command paths without guarded registers", 100)]
