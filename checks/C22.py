"""Discovery is all or nothing, and the liveness probe never leaves a half-open connection."""
import ast

from sa.check import facts_str
from sa.clientmodel import ClientPolicy, call_target, client_class, events
from sa.core import K, NONE, Term, is_k, kval, show, subterms
from sa.detectmodel import SEND, DetectPolicy, block_of, called, methods, reach
from sa.events import callee_of

TITLE = "Discovery either completes and stores its result or fails with nothing stored"
RULE = (
    "detect() is explored with its implementation failing in every declared way: on TimeoutError and CommunicationError the connection is closed (a failing close() not replacing "
    "the original exception), on PlantTopologyMismatch it is left open, and the same exception leaves. Every method that assigns capabilities is explored with each read failing: a "
    "non-None value is stored once, after the last read, and is the value returned; with a prior, only if it is known equal to the prior in every field but the ARM firmware version; "
    "a mismatch is raised only when they are known to differ, carrying both, after storing None. probe_alive() returns whether the block's timestamp changed over its one read, "
    "closes the connection exactly when it returns False, and raises nothing."
)
ARM = "arm_firmware_version"


class P22(DetectPolicy):
    def inline(self, fn, interp, st):
        return fn.name == "__init__" and fn.module.name.endswith("model.register") or super().inline(fn, interp, st)


def check(chk):
    I = chk.interp()
    outer(chk, I)
    inner(chk, I)
    alive(chk, I)


def net_methods(I):
    ms = methods(I)
    return ms, reach(ms, SEND) | {SEND}


def cls_of(I, v):
    return v.args[0] if v.op == "exc" else None


def exact_sub(I, v, name, ext=False):
    c = cls_of(I, v)
    if c is None:
        return False
    want = name if ext else Term("cls", I.cls("exceptions:" + name))
    return I.exc_sub(c, want)


# --------------------------------------------------------------------- outer
def outer(chk, I):
    fn = I.func("client.client:Client.detect")
    chk.require(fn is not None, "Client.detect")
    ms, net = net_methods(I)
    where = chk.loc(I, fn)
    kinds = {
        "TimeoutError": lambda: I.exc_term("TimeoutError", exact=True, note="t"),
        "CommunicationError": lambda: I.exc_term(I.cls("exceptions:CommunicationError"), exact=True, note="c"),
        "ConnectionLost": lambda: I.exc_term(I.cls("exceptions:ConnectionLost"), exact=True, note="l"),
        "PlantTopologyMismatch": lambda: I.exc_term(I.cls("exceptions:PlantTopologyMismatch"), exact=True, note="m"),
    }
    used = {}

    def raises(I, ev, st):
        if ev.name in net:
            out = []
            for n, f in kinds.items():
                t = f()
                used[(n,)] = True
                out.append(t)
            return out
        if ev.name == "close":
            return ("Exception",)
        return ()

    pol = DetectPolicy(I, opaque=(net - {"detect"}) | {"close"}, raises=raises)
    I.policy = pol
    seen = set()
    for p in chk.explore(I, fn):
        evs = events(p.st.trace)
        bad = [e for e in evs if e.name.startswith("raises:") and e.name != "raises:close"]
        if not bad:
            ok = any(e.name in net and p.val in (e.res, Term("await", e.res)) for e in evs)
            if p.kind == "return" and ok:
                chk.ok("detect() returns what was discovered")
            elif p.kind == "return" and not ok:
                chk.violation("result", fn.name, where, f"detect() returns {show(p.val)}, not what was discovered ({facts_str(p.st)})")
            else:
                chk.violation("result", fn.name, where, f"detect() fails with {show(p.val)} although discovery completed")
            if any(e.name == "close" for e in evs):
                chk.violation("closed", fn.name, where, "the connection is closed after a completed discovery")
            continue
        name = next((n for n in kinds if n in str(dict(bad[0].kw)["exc"])), "?")
        i = evs.index(bad[0])
        closes = [e for e in evs[i:] if e.name == "close"]
        w = f"{fn.module.path}:{bad[0].line()} ({fn.qual})"
        if p.kind != "raise":
            chk.violation("swallowed", fn.name, w, f"discovery fails with {name} but detect() returns {show(p.val)}")
            continue
        if p.val.op != "exc" or name not in show(p.val):
            chk.violation("masked", fn.name, w, f"discovery fails with {name} but {show(p.val)} leaves detect()")
            continue
        if name == "PlantTopologyMismatch":
            if closes:
                chk.violation("closed", fn.name, w, "the connection is closed although only the hint was wrong")
            else:
                chk.ok("mismatches leave the connection open")
        elif not closes:
            chk.violation("half-open", fn.name, w, f"discovery fails with {name} but the connection stays open")
            continue
        else:
            chk.ok("failed discoveries close the connection", name + (" and a failing close()" if any(e.name == "raises:close" for e in evs) else ""))
        seen.add(name)
    for n in kinds:
        if n not in seen and not chk.findings:
            chk.violation("swallowed", fn.name, where, f"no path of detect() passes {n} on")


# --------------------------------------------------------------------- inner
def storers(I, ms, net):
    """Network methods that (with the helpers they call) assign capabilities."""

    def stores(fn):
        return any(isinstance(n, ast.Attribute) and n.attr == "capabilities" and isinstance(n.ctx, ast.Store) for n in ast.walk(fn.node))

    direct = {n for n, f in ms.items() if stores(f)}
    helpers = {n for n in direct if n not in net}
    out = {n for n in direct if n in net}
    while True:
        more = {n for n, f in ms.items() if n not in helpers and n not in net and called(f) & helpers}
        if not more:
            break
        helpers |= more
    out |= {n for n in net if n in ms and called(ms[n]) & helpers}
    out.discard(SEND)
    return sorted(out)


def inner(chk, I):
    ms, net = net_methods(I)
    comm = I.cls("exceptions:CommunicationError")
    names = storers(I, ms, net)
    chk.require(names, "a client method assigning capabilities")
    for n in names:
        fn = ms[n]

        def raises(I, ev, st):
            if ev.name in net:
                return (I.exc_term("TimeoutError", exact=True, note="t"), I.exc_term(comm, exact=True, note="c"))
            return ()

        pol = P22(I, opaque=(net - {n}) | {"close", "_derive_capabilities"}, watch={"mark_absent"}, stores={"capabilities"}, raises=raises)
        I.policy = pol
        where = chk.loc(I, fn)
        has_prior = "prior" in [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]
        ps = chk.explore(I, fn)
        for p in ps:
            one_path(chk, I, fn, n, p, where, net, has_prior)


def one_path(chk, I, fn, n, p, where, net, has_prior):
    evs = events(p.st.trace)
    fc = facts_str(p.st)
    stores = [(i, e) for i, e in enumerate(evs) if e.name == "store:capabilities"]
    good = [(i, e) for i, e in stores if e.args[0] != NONE]
    reads = [i for i, e in enumerate(evs) if e.name in net]
    ident = n == "_detect" or has_prior
    if p.kind == "raise":
        if good and not ident and all(any(x.name in net and g.args[0] in (x.res, Term("await", x.res)) for x in evs) for _, g in good):
            chk.ok("wrappers store what discovery returned")
            return
        if good:
            chk.violation("stored-on-failure", n, f"{fn.module.path}:{good[0][1].line()} ({fn.qual})", f"capabilities are assigned although {n}() then fails with {show(p.val)} ({fc})")
            return
        if p.val.op == "exc" and exact_sub(I, p.val, "PlantTopologyMismatch"):
            mismatch(chk, I, fn, n, p, stores, where, fc)
        else:
            chk.ok("failed discoveries store nothing")
        return
    if not ident and not stores:
        return
    if len(good) != 1 or stores[-1] != good[0]:
        chk.violation("not-stored", n, where, f"{n}() completes with {len(good)} results stored ({fc})")
        return
    i, e = good[0]
    w = f"{fn.module.path}:{e.line()} ({fn.qual})"
    v = e.args[0]
    after = [j for j in reads if j > i]
    if ident:
        if after:
            chk.violation("too-early", n, w, f"capabilities are assigned while discovery can still fail ({fc})")
            return
        if p.val != v:
            chk.violation("not-stored", n, w, f"{n}() returns {show(p.val)} but stores {show(v)}")
            return
        if not hr0_known(I, p.st):
            chk.violation("unidentified", n, where, f"discovery completes although the identity bank may not have arrived ({fc})")
            return
        if has_prior and not prior_none(I, p.st):
            bad = same_topology(I, p.st, v, True)
            if bad:
                chk.violation("hint", n, where, f"discovery with a prior completes {bad} ({fc})")
                return
        chk.ok("completed discoveries: stored and returned")
    else:
        if any(x.name in net and v in (x.res, Term("await", x.res)) for x in evs):
            chk.ok("wrappers store what discovery returned")
        else:
            chk.violation("not-stored", n, w, f"{n}() assigns {show(v)}, not the result of discovery")


def mismatch(chk, I, fn, n, p, stores, where, fc):
    if not stores or stores[-1][1].args[0] != NONE:
        chk.violation("stored-on-failure", n, where, f"a topology mismatch is raised without clearing capabilities ({fc})")
        return
    kw = dict(p.val.args[2]) if isinstance(p.val.args[2], tuple) else {}
    if kw.get("prior") != Term("param", "prior"):
        chk.violation("hint", n, where, f"the mismatch carries {show(kw['prior']) if kw.get('prior') is not None else 'no prior'} as the prior")
        return
    act = kw.get("actual")
    if act is None or act == NONE or act == kw["prior"]:
        chk.violation("hint", n, where, "the mismatch does not carry the topology found")
        return
    if prior_none(I, p.st) is True:
        chk.violation("hint", n, where, f"a mismatch is raised without a prior ({fc})")
        return
    bad = same_topology(I, p.st, act, False)
    if bad:
        chk.violation("hint", n, where, f"a mismatch is raised {bad} ({fc})")
    else:
        chk.ok("mismatches: known to differ, nothing stored")


def prior_none(I, st):
    t = Term("param", "prior")
    k = I.known(st, Term("cmp", "is", t, NONE))
    if k is None and I.known(st, t) is not None:
        k = not I.known(st, t)
    return k is True


def hr0_known(I, st):
    for f, b in st.facts.items():
        t = None
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE and b is False:
            t = f.args[1]
        elif b is True and f.op in ("call", "idx"):
            t = f
        if t is not None and is_hr0(I, st, t):
            return True
    return False


def is_hr0(I, st, t):
    if t.op == "idx":
        a = t.args[1]
    elif t.op == "call" and t.args[1]:
        a = t.args[1][0]
    else:
        return False
    if a.op == "ref":
        o = I.hget(st, a)
        if o is None or o.kind != "inst" or o.cls is None or o.cls.name != "HR":
            return False
        vals = [x for x in o.data.values() if isinstance(x, Term)]
        return K(0) in vals and "register_caches" in show(t.args[0] if t.op == "call" else t.args[0])
    return a.op == "call" and show(a) == "HR(0)"


def fields_of(I):
    ci = I.cls("model.plant:PlantCapabilities")
    return {n for c in ci.repo_mro() for n in c.annotations if not n.startswith("_") and n not in ("model_config",) and "ClassVar" not in ast.unparse(c.annotations[n] if isinstance(c.annotations[n], ast.AST) else ast.Constant(0))}


def side(I, st, t):
    """(object, fields compared) of one side of a comparison."""
    if t.op == "call":
        name, base, _ = callee_of(t.args[0])
        kw = dict(t.args[2])
        if name in ("model_dump", "dict", "to_dict", "model_dump_json"):
            allf = fields_of(I)
            ex, inc = kw.get("exclude"), kw.get("include")
            e = names_in(I, st, ex) if ex is not None else set()
            n = names_in(I, st, inc) if inc is not None else allf
            if e is None or n is None:
                return None
            return base, n - e
        if name in ("tuple", "list", "set", "sorted", "frozenset") and len(t.args[1]) == 1:
            return side(I, st, t.args[1][0])
        return None
    if t.op == "attr":
        return t.args[0], {t.args[1]}
    if t.op == "tup":
        ss = [side(I, st, x) for x in t.args]
        if not ss or any(s is None for s in ss) or len({s[0] for s in ss}) != 1:
            return None
        return ss[0][0], set().union(*(s[1] for s in ss))
    return t, fields_of(I)


def names_in(I, st, t):
    if t.op == "kset":
        return {str(x if not isinstance(x, Term) else kval(x)) for x in t.args[0]}
    if t.op == "tup":
        items = t.args
    elif t.op == "ref" and I.hget(st, t).kind in ("set", "list", "dict") and I.hget(st, t).exact:
        items = [x[0] if isinstance(x, tuple) else x for x in I.hget(st, t).data]
    else:
        return None
    if not all(isinstance(x, Term) and is_k(x) for x in items):
        return None
    return {kval(x) for x in items}


def same_topology(I, st, v, want):
    """None when the facts say the prior and the found topology agree (differ); otherwise what is missing."""
    prior = Term("param", "prior")
    need = fields_of(I) - {ARM}
    agreed, looked = set(), False
    for f, b in st.facts.items():
        if f.op != "cmp" or f.args[0] not in ("eq",):
            continue
        a, c = side(I, st, f.args[1]), side(I, st, f.args[2])
        if a is None or c is None or a[1] != c[1]:
            continue
        objs = {a[0], c[0]}
        if prior not in objs or len(objs) != 2:
            continue
        other = (objs - {prior}).pop()
        if other != v and not (a[1] == {"device_type"}):
            continue
        looked = True
        if b:
            agreed |= a[1]
            if ARM in a[1] and want:
                return "only when the ARM firmware version is unchanged too"
        elif not want:
            if ARM in a[1]:
                return "although only the ARM firmware version may have changed"
            return None
    if want:
        if need <= agreed:
            return None
        miss = sorted(need - agreed)
        return f"although {', '.join(miss[:3])} may differ from the prior" if looked else "without comparing what was found with the prior"
    return "although nothing is known to differ"


# --------------------------------------------------------------------- alive
def alive(chk, I):
    fn = I.func("client.client:Client.probe_alive")
    chk.require(fn is not None, "Client.probe_alive")
    ms, net = net_methods(I)
    where = chk.loc(I, fn)
    comm = I.cls("exceptions:CommunicationError")
    lost = I.cls("exceptions:ConnectionLost")

    def raises(I, ev, st):
        if ev.name == SEND:
            return (I.exc_term("TimeoutError", exact=True, note="t"), I.exc_term(comm, exact=True, note="c"), I.exc_term(lost, exact=True, note="l"))
        if ev.name == "close":
            return ("Exception",)
        return ()

    pol = DetectPolicy(I, opaque={SEND, "close"}, raises=raises)
    I.policy = pol
    yes = no = 0
    for p in chk.explore(I, fn):
        evs = events(p.st.trace)
        fc = facts_str(p.st)
        sends = [(i, e) for i, e in enumerate(evs) if e.name == SEND]
        closes = [e for e in evs if e.name == "close"]
        if p.kind != "return":
            chk.violation("alive-raises", fn.name, where, f"the liveness probe raises {show(p.val)} ({fc})")
            continue
        if len(sends) != 1:
            chk.violation("alive-read", fn.name, where, f"the liveness probe sends {len(sends)} requests")
            continue
        i, s = sends[0]
        b = block_of(I, p.st, s.arg(0, "request"))
        w = f"{fn.module.path}:{s.line()} ({fn.qual})"
        if b is None or (b[0], b[1], b[2], b[3]) != (K(0x11), "HR", K(0), K(60)):
            chk.violation("alive-read", fn.name, w, f"the liveness probe reads {tuple(show(x) if isinstance(x, Term) else x for x in b) if b else '?'}, not the identity bank")
            continue
        if s.arg(1, "timeout") != Term("param", "timeout") or s.arg(2, "retries") != Term("param", "retries"):
            chk.violation("alive-read", fn.name, w, "timeout and retries are not passed on")
            continue
        val = I.known(p.st, p.val)
        failed = any(e.name.startswith("raises:" + SEND) for e in evs)
        fresh = stamp_changed(I, p.st, evs, i)
        if val is None:
            chk.violation("alive-result", fn.name, where, f"the answer is {show(p.val)}, which is not decided by the timestamp ({fc})")
            continue
        if val and (failed or fresh is not True):
            chk.violation("alive-stale", fn.name, where, f"the inverter is reported alive although its identity bank was not stored by this read ({fc})")
            continue
        if not val and not failed and fresh is not False:
            chk.violation("alive-result", fn.name, where, f"the inverter is reported not alive although its identity bank may just have been stored ({fc})")
            continue
        if val and closes:
            chk.violation("closed", fn.name, where, f"the connection is closed although the inverter is alive ({fc})")
            continue
        if not val and not closes:
            chk.violation("half-open", fn.name, where, f"the inverter is reported not alive but the connection stays open ({fc})")
            continue
        if not boolean(I, p.st, p.val):
            chk.violation("alive-result", fn.name, where, f"the answer is {show(p.val)}, not a bool")
            continue
        if val:
            yes += 1
        else:
            no += 1
        chk.ok("liveness answers", f"{val}: {fc}")
    if not (yes and no) and not chk.findings:
        chk.violation("alive-result", fn.name, where, "the liveness probe cannot answer both ways")


def boolean(I, st, t):
    return is_k(t) and isinstance(kval(t), bool) or t.op in ("not", "cmp", "isinstance", "and", "or") or t.op == "call" and t.args[0] == Term("ext", "bool") or I.typeof(st, t) == ("prim", "bool")


def stamp_changed(I, st, evs, i):
    """True / False / None: did the block's timestamp change over the read at event i?"""
    key = Term("tup", K(0x11), K("HR"), K(0), K(60))

    def stamps(part):
        return [e.res for e in part if e.name == "get" and (e.path() or "").endswith("register_block_updated_at") and e.args and e.args[0] == key]

    before, after = stamps(evs[:i]), stamps(evs[i + 1 :])
    for a in after:
        if I.known(st, Term("cmp", "is", a, NONE)) is True or I.known(st, a) is False:
            return False
        some = I.known(st, Term("cmp", "is", a, NONE)) is False or I.known(st, a) is True
        for b in before:
            for o in ("eq", "is"):
                for x, y in ((a, b), (b, a)):
                    k = I.known(st, Term("cmp", o, x, y))
                    if k is True:
                        return False
                    if k is False and some:
                        return True
            if some and I.known(st, Term("cmp", "is", b, NONE)) is True:
                return True
    return None


MINIMUMS = [("failed discoveries close the connection", 3), ("completed discoveries: stored and returned", 10), ("mismatches: known to differ, nothing stored", 2), ("liveness answers", 3)]
