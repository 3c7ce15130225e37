"""A batch of writes is validated as a whole against the detected model before any of it is sent."""
from sa.check import facts_str
from sa.core import AnalysisError, NONE, Term, kval, show
from sa.events import attr_path, loops, receiver_and_args
from sa.interp import Policy

TITLE = "Command batches are fully validated for the model before any frame is sent"
RULE = (
    "Both command entry points of the client are explored with an arbitrary batch; wherever the batch is handed to the "
    "transmit path, the path must not be a dry run and an arbitrary element must have passed its own validity check and, "
    "when it is a write, be known to lie in the detected model's write set (or, installer entry point only, be an installer "
    "write in the installer set) - in a loop over the whole batch that has finished. A dry run that ends normally must have "
    "passed the same tests."
)
SEND = ("execute", "send_request_and_await_response")


class P(Policy):
    def __init__(self, I):
        self.invalid = I.cls("exceptions:InvalidPduState")
        self.gate = I.func("model.manifest:write_safe_registers")

    def inline(self, fn, interp, st):
        return fn is not self.gate

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        if name == "ensure_valid_state":
            interp.raise_(st.copy(), interp.exc_term(self.invalid, exact=True), node)
            return [(st.emit("valid", base, loops(interp.ctx)), NONE)]
        if name in SEND:
            what = rest[0] if rest else kwargs.get("requests", kwargs.get("request"))
            return [(st.emit("send", what, loops(interp.ctx), node), Term("call", callee, tuple(args), (), interp.uid(node)))]
        if name in ("put", "put_nowait", "write") and base is not None:
            return [(st.emit("direct", Term("str", name), (), node), NONE)]
        return None


def check(chk):
    I = chk.interp()
    pol = P(I)
    chk.require(pol.invalid is not None and pol.gate is not None, "write gate")
    inst = I.glob("pdu.write_registers:INSTALLER_WRITE_REGISTERS")
    installer = {kval(x) for x in I.kset_of(inst, I.gstate)}
    W = I.cls("pdu.write_registers:WriteHoldingRegisterRequest")
    for n in ("one_shot_command", "installer_command"):
        fn = I.func("client.client:Client." + n)
        chk.require(fn is not None, n)
        I.policy = pol
        paths = chk.explore(I, fn)
        req = Term("param", "requests")
        where = chk.loc(I, fn)
        sent = 0
        for p in paths:
            st = p.st
            sends = [e for e in st.trace if e[0] == "send"]
            if any(e[0] == "direct" for e in st.trace):
                chk.violation("bypass", n, where, "a command entry point writes to the queue or socket itself")
            if not sends:
                if p.kind == "return" and I.known(st, Term("param", "dry_run")) is not True and I.known(st, req) is not False:
                    chk.violation("not-sent", n, where, f"a valid batch is accepted but never handed to the transmit path ({facts_str(st)})")
                else:
                    chk.ok("paths that send nothing")
                if p.kind == "return":  # a dry run must not accept what a live run would refuse
                    dry = st.emit("send", req, (), None)
                    one_send(chk, I, W, n + " (dry run)", where, dry, dry.trace[-1], req, installer, pol)
                continue
            sent += 1
            if p.kind == "raise" and any(e[0] == "valid" for e in st.trace[st.trace.index(sends[0]) :]):
                chk.violation("sent-then-validated", n, where, "part of the batch is sent before the rest is validated")
            if I.known(st, Term("param", "dry_run")) is not False:
                chk.violation("dry-run-sends", n, where, f"frames are handed over on a path that may be a dry run ({facts_str(st)})")
            for e in sends:
                one_send(chk, I, W, n, where, st, e, req, installer, pol)
        if not sent:
            chk.violation("never-sends", n, where, "no batch is ever handed to the transmit path")


def is_batch(I, st, t, req):
    if t == req:
        return True
    if t is not None and t.op == "chain":
        return is_batch(I, st, t.args[0], req)
    if t is not None and t.op == "ref":
        o = I.hget(st, t)
        return o.kind in ("list", "set") and all(x == Term("elem", req) for x in o.data)
    return False


def one_send(chk, I, W, n, where, st, e, req, installer, pol):
    what, sloops = e[1], e[2]
    E = Term("elem", req)
    if not (is_batch(I, st, what, req) or what == E):
        raise AnalysisError(f"{n}: what is sent is not the batch: {show(what)}")
    if I.known(st, req) is False:
        chk.ok("empty batches")
        return
    before = st.trace[: st.trace.index(e)]
    vs = [v for v in before if v[0] == "valid" and v[1] == E]
    if not vs:
        chk.violation("unvalidated", n, where, f"a batch is accepted although an arbitrary element has not passed its validity check ({facts_str(st)})")
        return
    if all(set(v[2]) & set(sloops) for v in vs):
        chk.violation("interleaved", n, where, "elements are sent while later ones have not been validated")
    if any(a[0] == "broke" for a in st.aux):
        chk.violation("stops-early", n, where, "the validation of the batch can stop before its end")
        return
    w = I.known(st, Term("isinst", E, Term("cls", W)))
    if w is None:
        w = isinst(I, st, E, W)
    if w is False:
        chk.ok("batches: element is a read")
        return
    flag = known_attr(I, st, E, "installer")
    allowed_model = allowed_set = False
    S = None
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "in" and f.args[1].op == "attr" and f.args[1].args[:2] == (E, "register") and b:
            k = classify(I, st, f.args[2], pol, installer)
            if k == "model":
                allowed_model = True
            elif k == "installer":
                allowed_set = True
    if n.startswith("one_shot_command"):
        if flag is not False:
            chk.violation("installer-accepted", n, where, "an installer-tier request can pass the standard entry point")
        if not allowed_model:
            chk.violation("model-gate", n, where, f"a write is accepted whose register is not known to be in the detected model's set ({facts_str(st)})")
        else:
            chk.ok("batches: element is a permitted write", f"{n}: {facts_str(st)}")
        return
    if allowed_model or (allowed_set and flag is True):
        chk.ok("batches: element is a permitted write", f"{n}: {facts_str(st)}")
    else:
        chk.violation("model-gate", n, where, f"a write is accepted whose register is neither in the detected model's set nor an installer request in the installer set ({facts_str(st)})")


def known_attr(I, st, base, name):
    for f in st.facts:
        if f.op == "attr" and f.args[:2] == (base, name):
            return I.known(st, f)
    return None


def isinst(I, st, E, W):
    for f, b in st.facts.items():
        if f.op == "isinstance" and f.args[0] == E:
            return b
    return None


def classify(I, st, S, pol, installer):
    """Is this set the detected model's write set, or inside the installer set?"""
    if S.op == "call" and S.args[0].op == "fn" and S.args[0].args[0] is pol.gate:
        a = list(S.args[1]) + [v for _, v in S.args[2]]
        caps = None
        if a[0] == NONE:
            for f, b in st.facts.items():
                if b and f.op == "cmp" and f.args[0] in ("is", "eq") and NONE in f.args[1:]:
                    x = f.args[1] if f.args[2] == NONE else f.args[2]
                    if (attr_path(x) or "").endswith("plant.capabilities") or (attr_path(x) or "").endswith("capabilities.device_type"):
                        return "model"
            return None
        return "model" if (attr_path(a[0]) or "") == "self.plant.capabilities.device_type" else None
    ks = I.kset_of(S, st)
    if ks is not None and {kval(x) for x in ks} <= installer:
        return "installer"
    return None


MINIMUMS = [("batches: element is a permitted write", 4), ("batches: element is a read", 2)]
