"""Partial poll failures are reported completely, and polling without discovery is refused."""
import ast

from sa.check import facts_str
from sa.clientmodel import ClientPolicy, client_class, events
from sa.core import K, NONE, Term, is_k, kval, show, subterms

TITLE = "Failed reads of a poll are reported exactly, and polling an undetected plant is refused"
RULE = (
    "The method deciding the outcome of a batch of reads is explored over arbitrary results: every failing result adds one ReadFailure with the address, type, base and count of "
    "its own request and no other result does; the paths end normally only with no failure known, with RefreshFailed only when as many failures as requests are known, with "
    "RefreshPartiallySucceeded (failures and plant attached) otherwise; cancellation is re-raised. execute() gathers the requests in order. refresh() and load_config() raise "
    "PlantNotDetected before anything is asked exactly when capabilities is None, and return the plant."
)
EXEC = "execute"


class P20(ClientPolicy):
    one_element = False

    def inline(self, fn, interp, st):
        if fn.cls is None and fn.name not in self.opaque and not any(isinstance(n, ast.Raise) for n in ast.walk(fn.node)):
            return fn.name in self.extra
        return super().inline(fn, interp, st)


def check(chk):
    I = chk.interp()
    gathers(chk, I)
    reader = reader_method(chk, I)
    outcome(chk, I, reader)
    for name in ("refresh", "load_config"):
        gate(chk, I, name, reader.name)


def reader_method(chk, I):
    """The client method that runs a batch and raises the refresh errors."""
    fn = I.method(client_class(I), "_execute_reads")
    if fn is None:
        for c in client_class(I).repo_mro():
            for v in c.attrs.values():
                if isinstance(v, Term) and v.op == "fn" and {"RefreshFailed", "execute"} <= {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(v.args[0].node) if isinstance(n, (ast.Attribute, ast.Name))}:
                    fn = v.args[0]
    chk.require(fn is not None, "the method that executes a batch of reads")
    return fn


def gathers(chk, I):
    fn = I.func("client.client:Client.execute")
    chk.require(fn is not None, "Client.execute")
    one = "send_request_and_await_response"
    pol = ClientPolicy(I, opaque={one}, watch={"sorted", "reversed", "set", "frozenset", "reverse", "sort", "shuffle"})
    I.policy = pol
    where = chk.loc(I, fn)
    n = 0
    for p in chk.explore(I, fn):
        evs = events(p.st.trace)
        g = [e for e in evs if e.name == "asyncio.gather"]
        o = [e for e in evs if e.name in pol.watch - {one} and e.name.split(".")[-1] in ("sorted", "reversed", "set", "frozenset", "reverse", "sort", "shuffle")]
        if o:
            chk.violation("gather", fn.name, f"{fn.module.path}:{o[0].line()} ({fn.qual})", f"the requests of a batch are reordered by {o[0].name}(): results no longer match requests")
            continue
        if p.kind != "return" or len(g) != 1 or p.val not in (g[0].res, Term("await", g[0].res)):
            chk.violation("gather", fn.name, where, f"a batch ends with {p.kind} {show(p.val)} instead of gathering all requests ({facts_str(p.st)})")
            continue
        if g[0].arg(9, "return_exceptions") != Term("param", "return_exceptions"):
            chk.violation("gather", fn.name, where, "return_exceptions is not passed on: one failing read hides the others")
            continue
        empty = I.known(p.st, Term("param", "requests")) is False
        if empty and not g[0].args:
            continue
        a = g[0].args
        ok = len(a) == 1 and a[0].op == "star"
        if ok:
            ref = a[0].args[0]
            items = I.hget(p.st, ref).data if ref.op == "ref" else ()
            ok = len(items) >= 1 and all(sends_each(x, one) for x in items)
        if ok:
            n += 1
            chk.ok("batches gathered in request order")
        elif a and not empty:
            chk.violation("gather", fn.name, where, f"what is gathered is not one send per request in order: {', '.join(show(x) for x in a)}")
    for h, hd, e, k in pol.ends:
        if not any(ev.name == one for ev in events(e.trace[len(hd.trace) :])) and any(ev.name == one for _, h2, e2, _ in pol.ends for ev in events(e2.trace[len(h2.trace) :])):
            chk.violation("gather", fn.name, where, f"a request of the batch is left out ({facts_str(e)})")
    if not n and not chk.findings:
        chk.violation("gather", fn.name, where, "no path gathers the requests")


def sends_each(t, one):
    if t.op != "call" or t.args[0].op not in ("bm", "fn") or (t.args[0].args[0].args[0] if t.args[0].op == "bm" else t.args[0].args[0]).name != one:
        return False
    args = list(t.args[1]) + [v for k, v in t.args[3 - 1] if k == "request"]
    return Term("elem", Term("param", "requests")) in args


# ------------------------------------------------------------------- outcome
REQS = Term("param", "requests")


def is_result(t):
    """elem/idx of what execute() returned."""
    if t.op not in ("elem", "idx"):
        return False
    b = t.args[0]
    if b.op == "await":
        b = b.args[0]
    return b.op == "call" and "execute" in show(b.args[0])


def req_of(t, reqs):
    """The request at the same position as this result."""
    return Term(t.op, reqs, *t.args[1:])


def failing(I, st, reqs):
    """(result term, is Exception?, is BaseException?) for each result inspected in this state."""
    out = {}
    for f, b in st.facts.items():
        if f.op == "isinstance" and is_result(f.args[0]):
            r = out.setdefault(f.args[0], [None, None])
            n = show(f.args[1])
            if n == "Exception":
                r[0] = b
            elif n == "BaseException":
                r[1] = b
    for r in out.values():
        if r[0] is True:
            r[1] = True
        if r[1] is False:
            r[0] = False
    return out


def lists(st, I):
    return {k: v for k, v in st.h.items() if isinstance(k, int) and v.kind == "list"}


def outcome(chk, I, fn):
    where = chk.loc(I, fn)
    pos = [a.arg for a in fn.node.args.args if a.arg != "self"]
    reqs = Term("param", pos[0] if pos else "requests")
    pol = P20(I, opaque={EXEC})
    I.policy = pol
    ps = chk.explore(I, fn)
    failed = I.cls("exceptions:RefreshFailed")
    partial = I.cls("exceptions:RefreshPartiallySucceeded")
    rfail = I.cls("exceptions:ReadFailure")

    # which lists hold one entry per failing result
    grow, skip, inspected, swallow = {}, {}, 0, {}
    for node, h, e, k in pol.ends:
        fs = failing(I, e, reqs)
        swallow.setdefault(id(node), [])
        for r, (exc, base) in fs.items():
            inspected += 1
            swallow[id(node)].append(exc is True or base is False)
        hl = lists(h, I)
        for ref, lst in lists(e, I).items():
            if ref not in hl:
                continue
            new = lst.data[len(hl[ref].data) :]
            d = grow.setdefault(ref, [])
            d.append((id(node), len(new), new, fs, e))
    complete, fed = set(), {}
    for ref, rows in grow.items():
        nodes = {n for n, c, *_ in rows if c}
        rows = [r for r in rows if r[0] in nodes]
        if not rows:
            continue
        if len(nodes) != 1 or any(c > 1 for _, c, *_ in rows):
            continue
        good = True
        for _, c, new, fs, e in rows:
            yes = any(x[0] is True for x in fs.values())
            if (c == 1) != yes:
                good = False
        if good:
            complete.add(ref)
        fed[ref] = rows
    for _ in range(3):  # lists made one for one from such a list
        for ref, rows in fed.items():
            if ref in complete or any(c != 1 for _, c, *_ in rows):
                continue
            for _, c, new, fs, e in rows:
                if from_list(I, e, new[0], complete):
                    complete.add(ref)
    chk.require(inspected, "a loop over the results of a batch")
    if not any(v and all(v) for v in swallow.values()):
        chk.violation("swallowed", fn.name, where, "a result that is not an ordinary exception (cancellation) is treated as a successful read")
    read = set()  # fields that some entry takes from its request
    for rows in fed.values():
        for *_, new, _, e in rows:
            for x in new:
                for n in ("base_register", "register_count"):
                    v = field(I, e, x, n) if x.op == "ref" and I.hget(e, x).cls is rfail else None
                    if v is not None and v.op == "attr" and v.args[1] == n and is_req(v.args[0], reqs):
                        read.add(n)
    raised = 0
    seen_kinds = set()
    for p in ps:
        evs = events(p.st.trace)
        ex = [e for e in evs if e.name == EXEC]
        none_asked = I.known(p.st, reqs) is False or zero_len(I, p.st, reqs)
        fc = facts_str(p.st)
        if len(ex) > 1:
            chk.violation("repeated", fn.name, where, f"the batch is executed {len(ex)} times ({fc})")
            continue
        if not ex:
            if p.kind == "return" and none_asked:
                chk.ok("empty batches")
            else:
                chk.violation("not-asked", fn.name, where, f"a batch ends with {p.kind} without being executed ({fc})")
            continue
        e = ex[0]
        w = f"{fn.module.path}:{e.line()} ({fn.qual})"
        if e.arg(0, "requests") != reqs or e.arg(4, "return_exceptions") != K(True):
            chk.violation("not-asked", fn.name, w, "the batch is not executed as given with return_exceptions=True")
            continue
        for i, n in ((1, "timeout"), (2, "retries"), (3, "retry_delay")):
            if e.arg(i, n) != Term("param", n):
                chk.violation("not-asked", fn.name, w, f"{n} is not passed on to the batch")
        if any(b is False and (f == e.res or f == Term("await", e.res)) for f, b in p.st.facts.items()):
            continue  # there is one result per request, so this cannot be
        C = [Term("ref", r) for r in complete if r in p.st.h]
        if any(empty(I, p.st, c) for c in C) and any(nonempty(I, p.st, c) for c in C):
            continue  # all of them hold one entry per failure
        if p.kind == "return":
            if any(empty(I, p.st, c) for c in C) or none_asked:
                chk.ok("all reads succeeded: normal end")
            elif not C:
                chk.violation("hidden", fn.name, where, f"the batch ends normally although no complete list of failures is known empty ({fc})")
            else:
                chk.violation("hidden", fn.name, where, f"the batch ends normally although reads may have failed ({fc})")
            continue
        v = p.val
        if is_result(v) or (v.op != "exc" and is_result(v)):
            fs = failing(I, p.st, reqs)
            if fs.get(v, [None, None])[0] is False:
                seen_kinds.add("control")
                chk.ok("control-flow exceptions re-raised")
            else:
                chk.violation("raised", fn.name, where, f"the exception of one failing read is raised instead of the batch's outcome ({fc})")
            continue
        cls = exc_class(I, v)
        if cls is not failed and cls is not partial:
            if is_control(I, v, p.st):
                seen_kinds.add("control")
                chk.ok("control-flow exceptions re-raised")
                continue
            chk.violation("raised", fn.name, where, f"a batch ends with {show(v)} ({fc})")
            continue
        seen_kinds.add("failed" if cls is failed else "partial")
        kw = dict(v.args[2]) if isinstance(v.args[2], tuple) else {}
        every = all_failed(I, p.st, C, reqs)
        if any(empty(I, p.st, c) for c in C) or not (any(nonempty(I, p.st, c) for c in C) or every):
            chk.violation("raised", fn.name, where, f"{cls.name} is raised although no read is known to have failed ({fc})")
            continue
        if every is None or every is not (cls is failed):
            chk.violation("wrong-outcome", fn.name, where, f"{cls.name} is raised {'when all reads failed' if every else 'when some reads succeeded' if every is False else 'without knowing whether all reads failed'} ({fc})")
            continue
        L = kw.get("failures")
        bad = bad_list(I, p.st, L, complete, rfail, reqs, read)
        if bad:
            chk.violation("failures", fn.name, where, f"{cls.name}: {bad} ({fc})")
            continue
        if cls is partial and not (kw.get("plant") is not None and kw["plant"].op == "attr" and kw["plant"].args[:2] == (Term("param", "self"), "plant")):
            chk.violation("failures", fn.name, where, f"RefreshPartiallySucceeded carries {show(kw['plant']) if kw.get('plant') is not None else 'no plant'}, not the client's plant")
            continue
        raised += 1
        chk.ok("failed batches: " + cls.name, fc)
    for what, kind in (("partial failure", "partial"), ("total failure", "failed")):
        if kind not in seen_kinds:
            chk.violation("wrong-outcome", fn.name, where, f"no path reports {what}")
    if "control" not in seen_kinds and not chk.findings:
        chk.violation("swallowed", fn.name, where, "no path re-raises control-flow exceptions found among the results")


def from_list(I, st, v, complete):
    """Was this appended value computed from an element of a complete list?"""
    refs = {Term("ref", r) for r in complete}
    if any(s in refs for s in subterms(v)):
        return True
    vals = [x for r in complete if r in st.h for x in st.h[r].data]
    if v in vals:
        return True
    if v.op == "ref":
        o = I.hget(st, v)
        fields = list(o.data.values()) if isinstance(o.data, dict) else []
        for r in complete:
            for it in st.h[r].data if r in st.h else ():
                parts = it.args if it.op == "tup" else (it,)
                if fields and any(any(x in list(subterms(f)) for f in fields) for x in parts):
                    return True
    for it in vals:
        if it.op == "tup" and any(x in list(subterms(v)) for x in it.args):
            return True
    return False


def exc_class(I, v):
    if v.op != "exc":
        return None
    n = v.args[0]
    for q in ("RefreshFailed", "RefreshPartiallySucceeded"):
        if getattr(n, "name", n) == q or str(n).endswith(q):
            return I.cls("exceptions:" + q)
    return None


def is_control(I, v, st):
    if v.op == "exc" and str(getattr(v.args[0], "name", v.args[0])) in ("BaseException", "CancelledError", "asyncio.CancelledError"):
        return any(x[0] is False and x[1] is True for x in failing(I, st, REQS).values())
    return False


def length(t):
    return Term("len", t)


def len_terms(st, t):
    out = set()
    for f in st.facts:
        for s in subterms(f):
            if s.op == "len" and s.args[0] == t or s.op == "call" and s.args[0] == Term("ext", "len") and s.args[1] and s.args[1][0] == t:
                out.add(s)
    return out


def zero_len(I, st, t):
    if I.known(st, t) is False:
        return True
    for l in len_terms(st, t):
        lo, hi = I.iv(st, l)
        if hi is not None and hi <= 0 or I.known(st, l) is False or I.known(st, Term("cmp", "eq", l, K(0))) is True:
            return True
    return False


def empty(I, st, c):
    o = st.h.get(c.args[0])
    if o is not None and o.exact and not o.data:
        return True
    return zero_len(I, st, c)


def nonempty(I, st, c):
    if I.known(st, c) is True:
        return True
    for l in len_terms(st, c):
        lo, hi = I.iv(st, l)
        if lo is not None and lo >= 1 or I.known(st, l) is True:
            return True
    return False


def all_failed(I, st, C, reqs):
    """True / False / None: are there as many failures as requests?"""
    R = len_terms(st, reqs) | {length(reqs)}
    for f, b in st.facts.items():
        for x in f.args if f.op == "cmp" else ():
            if isinstance(x, Term) and x.op in ("len", "call") and "execute" in show(x) and show(x).startswith("len("):
                R.add(x)
    for c in C:
        for l in len_terms(st, c):
            for r in R:
                for a, b in ((l, r), (r, l)):
                    k = I.known(st, Term("cmp", "eq", a, b))
                    if k is not None:
                        return k
                k = I.known(st, Term("cmp", "lt", l, r))  # fewer failures than requests
                if k is not None:
                    return not k
                k = I.known(st, Term("cmp", "le", r, l))
                if k is not None:
                    return k
                d = Term("bin", "-", r, l)
                k = I.known(st, d)
                if k is not None:
                    return not k
                for z in (Term("cmp", "eq", d, K(0)),):
                    if I.known(st, z) is not None:
                        return I.known(st, z)
    return None


def bad_list(I, st, L, complete, rfail, reqs, read):
    if L is None or L.op != "ref":
        return f"failures is {show(L) if L is not None else None}"
    if L.args[0] not in complete:
        return "the failures attached are not known to hold exactly one entry per failed read"
    for x in I.hget(st, L).data:
        if x.op != "ref" or I.hget(st, x).cls is not rfail:
            return f"failures holds {show(x)}, not a ReadFailure"
        d = {}
        for n in ("device_address", "request_type", "base_register", "register_count"):
            d[n] = field(I, st, x, n)
        q = None
        for n, v in d.items():
            if v is None:
                return f"ReadFailure.{n} is unknown"
            if n == "request_type":
                ok = v.op == "attr" and v.args[1] == "__name__" and any(is_req(s, reqs) for s in subterms(v)) and ("type(" in show(v) or "__class__" in show(v))
                src = next((s for s in subterms(v) if is_req(s, reqs)), None)
            elif is_k(v):
                ok, src = n in ("base_register", "register_count") and v == K(0) and (n in read or missing(st, n)), q
            else:
                ok = v.op == "attr" and v.args[1] == n and is_req(v.args[0], reqs)
                src = v.args[0] if ok else None
            if not ok or q is not None and src is not None and src != q:
                return f"ReadFailure.{n} is {show(v)}, not that of the failed request"
            q = src or q
    return None


def field(I, st, x, n):
    r = I.load_attr(x, n, st, None)
    return r[0][1] if len(r) == 1 else None


def missing(st, n):
    """Known not to be an attribute of the request (requests that are not reads)."""
    return any("hasattr" in show(f) and repr(n) in show(f) and b is False for f, b in st.facts.items())


def is_req(t, reqs):
    return t.op in ("elem", "idx") and t.args[0] == reqs


# ---------------------------------------------------------------------- gate
def gate(chk, I, name, reader):
    fn = I.func("client.client:Client." + name)
    chk.require(fn is not None, "Client." + name)
    where = chk.loc(I, fn)
    net = {"send_request_and_await_response", "execute", reader, "detect"}
    pol = P20(I, opaque=net)
    I.policy = pol
    plant = Term("attr", Term("param", "self"), "plant", 0)
    refused = polled = 0
    for p in chk.explore(I, fn):
        evs = [e for e in events(p.st.trace) if e.name in net]
        caps = caps_none(I, p.st)
        if caps is True:
            if p.kind == "raise" and show(p.val).startswith("PlantNotDetected") and not evs:
                refused += 1
                chk.ok("polls refused before discovery")
            else:
                chk.violation("undetected", name, where, f"without capabilities {name}() ends with {p.kind} {show(p.val)} after {len(evs)} requests ({facts_str(p.st)})")
            continue
        if caps is None and (evs or p.kind == "raise"):
            chk.violation("undetected", name, where, f"{name}() goes on without having looked at capabilities ({facts_str(p.st)})")
            continue
        if p.kind == "raise":
            chk.violation("refused", name, where, f"a detected plant's {name}() fails with {show(p.val)} before reading ({facts_str(p.st)})")
            continue
        if len(evs) != 1 or evs[0].name != reader:
            chk.violation("refused", name, where, f"{name}() returns after {len(evs)} batches ({facts_str(p.st)})")
            continue
        bad = [n for n in ("timeout", "retries", "retry_delay") if evs[0].arg(9, n) != Term("param", n)]
        if bad:
            chk.violation("refused", name, f"{fn.module.path}:{evs[0].line()} ({fn.qual})", f"{name}() does not pass on {bad[0]}")
            continue
        if not (p.val.op == "attr" and p.val.args[:2] == plant.args[:2]):
            chk.violation("refused", name, where, f"{name}() returns {show(p.val)} instead of the plant")
            continue
        polled += 1
        chk.ok("polls of a detected plant")
    if not refused and not chk.findings:
        chk.violation("undetected", name, where, f"no path of {name}() refuses an undetected plant")
    if not polled and not chk.findings:
        chk.violation("refused", name, where, f"no path of {name}() polls")


def caps_none(I, st):
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE and f.args[1].op == "attr" and f.args[1].args[1] == "capabilities":
            return b
        if f.op == "attr" and f.args[1] == "capabilities":
            return not b
    return None


MINIMUMS = [("failed batches: RefreshFailed", 1), ("failed batches: RefreshPartiallySucceeded", 1), ("polls refused before discovery", 2), ("polls of a detected plant", 2), ("batches gathered in request order", 1)]
