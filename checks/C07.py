"""The registers each model accepts at the standard tier are the documented ones."""
from sa import spec_registers as SR
from sa.core import AnalysisError, K, NONE, Term, is_k, kval, show
from sa.models import members, possible

TITLE = "Each model accepts exactly its documented standard-tier registers"
RULE = (
    "The function that selects a model's writable registers is explored with the model left symbolic; for every model "
    "(and for an undetected plant) each path it can take must return that family's documented set, which must lie in "
    "the protocol-level allowlist and outside the installer tier."
)


def ints(I, st, t):
    ks = I.kset_of(t, st)
    if ks is None:
        raise AnalysisError(f"a model's register set is not constant: {show(t)}")
    return {kval(k) for k in ks}


def check(chk):
    I = chk.interp()
    fn = I.func("model.manifest:write_safe_registers")
    chk.require(fn is not None, "write_safe_registers")
    ms = members(I)
    chk.require(set(SR.MODELS) <= set(ms), f"model(s) {sorted(set(SR.MODELS) - set(ms))}")
    std = ints(I, I.gstate, I.glob("pdu.write_registers:WRITE_SAFE_REGISTERS"))
    inst = ints(I, I.gstate, I.glob("pdu.write_registers:INSTALLER_WRITE_REGISTERS"))
    where = chk.loc(I, fn)
    seen = {}
    model = Term("param", "model")
    for p in chk.explore(I, fn):
        if p.kind != "return":
            for m in possible(I, p.st, model):
                chk.violation("selection-fails", f"{m}", where, f"selecting the writable registers of {m} can raise {show(p.val)}")
            continue
        got = ints(I, p.st, p.val)
        for m in possible(I, p.st, model):
            want = SR.writable(m)
            name = m or "an undetected plant"
            seen[m] = seen.get(m, 0) + 1
            if m is not None and m not in SR.MODELS:
                chk.count("models without a documented set")
                continue
            if got - want:
                chk.violation("undocumented-register", f"{name}", where, f"accepts undocumented register(s) {sorted(got - want)}")
            if want - got:
                chk.violation("missing-register", f"{name}", where, f"refuses documented register(s) {sorted(want - got)}")
            if got - std:
                chk.violation("beyond-protocol-gate", f"{name}", where, f"register(s) {sorted(got - std)} pass the model gate but can never be encoded")
            if got & inst:
                chk.violation("installer-in-standard", f"{name}", where, f"installer register(s) {sorted(got & inst)} pass the standard gate")
            chk.ok("model and path combinations", f"{name}: {len(got)} registers")
    for m in list(SR.MODELS) + [None]:
        if not seen.get(m):
            chk.violation("no-selection", f"{m}", where, f"no path returns a set for {m}")


MINIMUMS = [("model and path combinations", 17)]
