"""A response can only reach the request it answers."""
from sa.check import facts_str
from sa.consumermodel import consumer
from sa.core import K, NONE, Term, is_k, kval, show
from sa.events import callee_of
from sa.sendermodel import attempts, is_registry, result_of, sender, strip

TITLE = "A waiting request is resolved only by the response it asked for"
RULE = (
    "The sender registers, before queueing a frame, the very future it queues and awaits under the shape hash of request.expected_response(); what it returns is that future's result; it drops a "
    "registration only when it is known to be its own. The receiving task looks a future up under the received message's shape hash. For every request class expected_response() and shape_hash() are "
    "explored: the key is (response class, function code, device address, register or base and count), each taken from the request, and no two response classes share a key."
)
S = Term("param", "self")
REQ = Term("param", "request")


def check(chk):
    I = chk.interp()
    registering(chk, I)
    lookup(chk, I)
    shapes(chk, I)


def registering(chk, I):
    fn, rows, loops, pol = sender(chk, I)
    where = chk.loc(I, fn)
    for r in rows + loops:
        evs = r.evs
        for i, e, item in attempts(evs):
            w = f"{fn.module.path}:{e.line()} ({fn.qual})"
            if item is None or item.op != "tup" or len(item.args) != 3:
                chk.violation("queue-item", fn.name, w, "what is queued is not a (frame, sent, response) tuple")
                continue
            fut = item.args[2]
            sets = [x for x in evs[:i] if x.name == "setitem:expected_responses"]
            # the latest registration before this put
            if not sets:
                chk.violation("unregistered", fn.name, w, f"a frame is queued before its response future is registered ({facts_str(r.st)})")
                continue
            x = sets[-1]
            if x.args[1] != fut:
                chk.violation("unregistered", fn.name, w, f"the future queued is not the one registered: {show(fut)} / {show(x.args[1])}")
            elif not own_key(x.args[0], evs):
                chk.violation("wrong-key", fn.name, f"{fn.module.path}:{x.line()} ({fn.qual})", f"the future is registered under {show(x.args[0])}, not the shape hash of the request's expected response")
            else:
                chk.ok("registrations before queueing")
            enc = strip(item.args[0])
            if not any(y.name == "encode" and y.res == enc and y.base == REQ for y in evs[:i]):
                chk.violation("queue-item", fn.name, w, f"the frame queued is not the request's own encoding: {show(item.args[0])}")
        for i, e in enumerate(evs):
            drop(chk, I, fn, r, evs, i, e)
    for r in rows:
        if r.kind != "return":
            continue
        fut = result_of(r.val)
        mine = [item.args[2] for _, _, item in attempts(r.evs) if item is not None and item.op == "tup" and len(item.args) == 3]
        if fut is not None and mine and fut == mine[-1]:
            chk.ok("results returned")
        else:
            chk.violation("wrong-result", fn.name, where, f"what is returned is not the result of the future that was registered: {show(r.val)} ({facts_str(r.st)})")


def own_key(t, evs):
    """request.expected_response().shape_hash()"""
    t = strip(t)
    for e in evs:
        if e.name == "shape_hash" and e.res == t:
            for x in evs:
                if x.name == "expected_response" and x.base == REQ and x.res == e.base:
                    return True
    return False


def drop(chk, I, fn, r, evs, i, e):
    gone = e.name == "delitem:expected_responses" or (e.name in ("pop", "clear") and is_registry(e.base))
    if not gone:
        return
    w = f"{fn.module.path}:{e.line()} ({fn.qual})"
    mine = [item.args[2] for _, _, item in attempts(evs[:i]) if item is not None and item.op == "tup" and len(item.args) == 3]
    if e.name == "clear":
        chk.violation("foreign-drop", fn.name, w, "every other caller's registration is dropped")
        return
    if not own_key(e.args[0], evs):
        chk.violation("foreign-drop", fn.name, w, f"a registration under another key is dropped: {show(e.args[0])}")
        return
    # must know, with no suspension since, that what is registered is our own future
    for j in range(i - 1, -1, -1):
        x = evs[j]
        if x.name in ("asyncio.wait_for", "asyncio.sleep", "put"):
            break
        if x.name == "setitem:expected_responses" and x.args[1] in mine:
            chk.ok("registrations dropped")
            return
        if x.name == "get" and is_registry(x.base) and own_key(x.args[0], evs):
            if any(known_same(I, r.st, x.res, m) for m in mine):
                chk.ok("registrations dropped")
                return
    for f, b in r.st.facts.items():
        if b is True and f.op == "cmp" and f.args[0] == "is" and any(m in f.args[1:] for m in mine):
            o = [a for a in f.args[1:] if a not in mine]
            if o and o[0].op == "idx" and is_registry(o[0].args[0]):
                chk.ok("registrations dropped")
                return
    chk.violation("foreign-drop", fn.name, w, f"a registration is dropped without knowing that it is this call's own, so a newer caller can lose its response ({facts_str(r.st)})")


def known_same(I, st, a, b):
    return I.known(st, Term("cmp", "is", a, b)) is True or I.known(st, Term("cmp", "is", b, a)) is True or I.known(st, Term("cmp", "eq", a, b)) is True


def lookup(chk, I):
    t, ps, rows = consumer(chk, I)
    for r in rows:
        for e in r.evs:
            if e.name != "set_result":
                continue
            w = f"{t.module.path}:{e.line()} ({t.qual})"
            f = strip(e.base)
            key = None
            if f.op == "call" and callee_of(f.args[0])[0] in ("get", "pop") and is_registry(callee_of(f.args[0])[1]):
                key = f.args[1][0]
            elif f.op == "idx" and is_registry(f.args[0]):
                key = f.args[1]
            if key is not None and any(x.name == "shape_hash" and x.base == r.msg and x.res == strip(key) for x in r.evs):
                chk.ok("responses matched by their own shape")
            else:
                chk.violation("wrong-match", t.name, w, f"the future resolved is not the one registered under the received message's shape: {show(e.base)}")


def concrete(I, base, code):
    out = []
    for m in I.prog.modules.values():
        for v in I.G[m.env].data.values():
            if v.op == "cmp":
                continue
            if v.op == "cls" and v.args[0].module is m and v.args[0].is_subclass(base):
                c = class_const(I, v.args[0], "transparent_function_code")
                if c is not None:
                    out.append((v.args[0], c))
    return out


def class_const(I, ci, name):
    v = I.class_attr(ci, name, I.gstate)
    v = v[1] if isinstance(v, tuple) else v
    return kval(v) if v is not None and is_k(v) else None


FIELDS = {3: ("device_address", "base_register", "register_count"), 4: ("device_address", "base_register", "register_count"), 0x16: ("device_address", "base_register", "register_count"), 6: ("device_address", "register")}


def shapes(chk, I):
    reqs = concrete(I, I.cls("pdu.transparent:TransparentRequest"), None)
    resps = dict()
    for ci, c in concrete(I, I.cls("pdu.transparent:TransparentResponse"), None):
        resps.setdefault(c, ci)
    chk.require({c for _, c in reqs} >= set(FIELDS), "request classes for functions 3, 4, 6 and 0x16")
    for ci, code in reqs:
        one_shape(chk, I, ci, code, resps)


def one_shape(chk, I, ci, code, resps):
    from sa.interp import Policy

    I.policy = Policy()
    fn = I.method(ci, "expected_response")
    where = chk.loc(I, fn)
    I.types[S] = ("cls", ci)
    want = FIELDS.get(code)
    if want is None:
        return
    for p in chk.explore(I, fn, {"self": S}):
        if p.kind == "raise":
            continue  # a request that cannot be answered cannot be encoded either
        if p.val.op != "ref":
            chk.violation("no-template", f"{ci.name}.expected_response", where, f"expected_response() gives {show(p.val)}")
            continue
        o = I.hget(p.st, p.val)
        if o.cls is not resps.get(code):
            chk.violation("wrong-template", f"{ci.name}.expected_response", where, f"a function {code} request expects a {o.cls.name if o.cls else show(p.val)}, but the decoder builds a {resps[code].name if code in resps else '?'}")
            continue
        keys = shape_keys(I, p.st, p.val)
        if keys is None:
            chk.violation("shape", f"{o.cls.name}.shape_hash", where, "the shape hash is not the hash of a tuple of the message's own fields")
            continue
        for st, ks in keys:
            if not ks or ks[0] != Term("cls", o.cls) or not any(is_k(k) and kval(k) == 2 for k in ks[1:2]):
                chk.violation("shape", f"{o.cls.name}.shape_hash", where, f"the shape does not begin with the message class and function code: {', '.join(show(k) for k in ks)}")
                continue
            rest = [k for k in ks if k.op == "attr" and k.args[0] == S]
            names = [k.args[1] for k in rest]
            for f in want:
                if f in names:
                    chk.ok("shape fields", f"{ci.name} -> {o.cls.name}: {f}")
                else:
                    chk.violation("shape", f"{ci.name}.expected_response", where, f"the shape of the expected response does not carry the request's {f}: {', '.join(show(k) for k in ks)}")
            other = [k for k in ks[2:] if k not in rest]
            varying = [k for k in other if not is_k(k)] + [k for k in rest if k.args[1] not in want]
            if varying:
                chk.violation("shape", f"{ci.name}.expected_response", where, f"the shape depends on more than the addressed registers: {', '.join(show(k) for k in varying)}")
            order(chk, I, o.cls, code, ks, where, want)


def order(chk, I, rcls, code, ks, where, want):
    """The decoded response's own shape uses the same fields in the same positions."""
    from sa.interp import State

    obj = Term("param", "decoded")
    I.types[obj] = ("cls", rcls)
    got = shape_keys(I, State(), obj)
    if not got:
        chk.violation("shape", f"{rcls.name}.shape_hash", where, "the shape of a decoded response is not understood")
        return
    for st, gs in got:
        a = [k.args[1] if k.op == "attr" and k.args[0] == S else k for k in ks[1:]]
        b = [k.args[1] if k.op == "attr" and k.args[0] == obj else k for k in gs[1:]]
        if a == b:
            chk.ok("shapes agree between template and decoded response", f"{rcls.name}: {[str(x) if isinstance(x, str) else show(x) for x in b]}")
        else:
            chk.violation("shape", f"{rcls.name}.shape_hash", where, f"template and decoded response use different keys: {a} / {b}")


def shape_keys(I, st, obj):
    out = []
    I.sinks = [[]]
    for x, m in I.load_attr(obj, "shape_hash", st, None):
        for y, v in I.call(m, [], {}, x, None):
            if v.op == "call" and v.args[0] == Term("ext", "hash") and v.args[1] and v.args[1][0].op == "tup":
                ks = list(v.args[1][0].args)
            elif v.op == "hash" and v.args[0].op == "tup":
                ks = list(v.args[0].args)
            elif v.op == "tup":
                ks = list(v.args)
            else:
                return None
            out.append((y, [norm_cls(I, obj, k) for k in ks]))
    return out


def norm_cls(I, obj, k):
    if k.op == "attr" and k.args[0] == obj and k.args[1] == "__class__":
        return Term("attr", obj, "$class", 0)
    if k.op == "call" and k.args[0] == Term("ext", "type"):
        return Term("attr", obj, "$class", 0)
    return k


MINIMUMS = [("registrations before queueing", 4), ("results returned", 1), ("registrations dropped", 1), ("responses matched by their own shape", 1), ("shape fields", 11), ("shapes agree between template and decoded response", 4)]
