"""What discovery records as absent is what it asked for and did not get."""
from sa.check import facts_str
from sa.clientmodel import client_class
from sa.core import K, NONE, Term, show
from sa.detectmodel import SEND, block_of, explorations, is_timeout_event

TITLE = "A probe that times out records exactly the block it asked for as absent and evicts that device's cache"
RULE = (
    "Every client method that sends requests and records absences is explored with a timeout possible at each send. A timeout that does not leave the method must be "
    "followed by mark_absent() with the device address, register type, base and count of that request, and by dropping that device's register cache (unless it is known empty). "
    "mark_absent() is never called for a block that was not asked for, nor for one that answered unless its cache is known empty."
)


def check(chk):
    I = chk.interp()
    for fn, rows, opaque in explorations(chk, I):
        if opaque:
            continue
        where = chk.loc(I, fn)
        for kind, st, val, evs in rows:
            marks = [(i, e) for i, e in enumerate(evs) if e.name == "mark_absent"]
            sends = [(i, e, block_of(I, st, e.arg(0, "request"))) for i, e in enumerate(evs) if e.name == SEND]
            for i, e, b in sends:
                if b is None:
                    chk.violation("unknown-request", fn.name, where, f"what is sent is not a register read: {show(e.arg(0, 'request'))}")
                    return
                out = evs[i + 1] if i + 1 < len(evs) else None
                if out is None or not is_timeout_event(out) or out.base != e.base:
                    continue
                if kind == "raise" and not any(j > i for j, _ in marks):
                    chk.ok("timeouts passed on")
                    continue
                if i + 2 >= len(evs) and kind == "raise":
                    continue
                one_timeout(chk, I, fn, st, evs, i, b, kind, f"{fn.module.path}:{e.line()} ({fn.qual})")
            for i, m in marks:
                one_mark(chk, I, fn, st, evs, i, m, sends, f"{fn.module.path}:{m.line()} ({fn.qual})")


def same(I, st, a, b):
    return a == b or I.norm(a) == I.norm(b)



def type_is(I, st, t, want):
    """The register type given to mark_absent names the class of the request."""
    if t is None:
        return False
    if t.op == "k":
        return t == K(want)
    other = "IR" if want == "HR" else "HR"
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "eq" and any(t == x or (t.op == x.op == "attr" and t.args[:2] == x.args[:2]) for x in f.args[1:]):
            if K(want) in f.args[1:]:
                return b
            if K(other) in f.args[1:]:
                return not b
    return False


def mark_args(I, m):
    """Arguments of mark_absent in the order of its parameters."""
    pos = ["device_address", "reg_type", "base_register", "register_count"]
    if m.fn is not None:
        pos = [a.arg for a in m.fn.node.args.args if a.arg != "self"]
    return [m.arg(i, n) for i, n in enumerate(pos[:4])]


def cache_empty(I, st, addr, evs):
    """Is this device's register cache known to be empty (or missing)?"""
    for e in evs:
        if e.name == "get" and (e.path() or "").endswith("register_caches") and same(I, st, e.arg(0), addr):
            if I.known(st, e.res) is False:
                return True
    for f, b in st.facts.items():
        if b is False and f.op == "call" and f.args[0].op == "attr" and f.args[0].args[1] == "get" and f.args[0].args[0].op == "attr" and f.args[0].args[0].args[1] == "register_caches":
            if f.args[1] and same(I, st, f.args[1][0], addr):
                return True
    return False


def dropped(I, st, addr, evs):
    for e in evs:
        if e.name == "pop" and (e.path() or "").endswith("register_caches") and e.args and same(I, st, e.args[0], addr):
            return True
        if e.name == "delitem:register_caches" and same(I, st, e.args[0], addr):
            return True
    for f, b in st.facts.items():
        if b is False and f.op == "cmp" and f.args[0] == "in" and f.args[2].op == "attr" and f.args[2].args[1] == "register_caches" and same(I, st, f.args[1], addr):
            return True
    return cache_empty(I, st, addr, evs)


def one_timeout(chk, I, fn, st, evs, i, b, kind, where):
    addr, typ, base, count = b
    after = evs[i + 1 :]
    hit = None
    for m in after:
        if m.name == SEND:
            nb = block_of(I, st, m.arg(0, "request"))
            if nb is not None and not same(I, st, nb[0], addr):
                break
        if m.name == "mark_absent" and mark_args(I, m)[0] is not None and same(I, st, mark_args(I, m)[0], addr):
            hit = m
            break
    if hit is None:
        if cache_known_full(I, st, addr, after):
            chk.ok("timeouts of a confirming read whose device has data")
            return
        chk.violation("not-recorded", fn.name, where, f"a probe of device {show(addr)} times out but the device is not recorded absent ({facts_str(st)})")
        return
    if not dropped(I, st, addr, after):
        chk.violation("stale-cache", fn.name, where, f"a probe of device {show(addr)} times out but its old register cache is kept ({facts_str(st)})")
        return
    chk.ok("timeouts recorded and evicted", f"{fn.name}: {show(addr)} {typ} {show(base)} {show(count)}")


def cache_known_full(I, st, addr, evs):
    for e in evs:
        if e.name == "get" and (e.path() or "").endswith("register_caches") and same(I, st, e.arg(0), addr) and I.known(st, e.res) is True:
            return True
    return False


def one_mark(chk, I, fn, st, evs, i, m, sends, where):
    a = mark_args(I, m)
    if any(x is None for x in a):
        chk.violation("wrong-block", fn.name, where, "mark_absent() is called without naming the whole block")
        return
    asked = [(j, e, b) for j, e, b in sends if j < i and a[0] is not None and same(I, st, b[0], a[0])]
    if not asked:
        chk.violation("wrong-block", fn.name, where, f"{show(a[0]) if a[0] is not None else '?'} is recorded absent although it was not the device asked ({facts_str(st)})")
        return
    j, e, b = asked[-1]
    if not (same(I, st, a[2], b[2]) and same(I, st, a[3], b[3]) and type_is(I, st, a[1], b[1])):
        chk.violation("wrong-block", fn.name, where, f"({', '.join(show(x) if x is not None else '?' for x in a)}) is recorded absent although ({show(b[0])}, {b[1]}, {show(b[2])}, {show(b[3])}) was asked")
        return
    out = evs[j + 1] if j + 1 < len(evs) else None
    if out is not None and is_timeout_event(out):
        chk.ok("absences: the block asked for")
    elif cache_empty(I, st, a[0], evs[j:]):
        chk.ok("absences: answered but nothing usable cached")
    else:
        chk.violation("answered", fn.name, where, f"device {show(a[0])} answered but is recorded absent ({facts_str(st)})")


MINIMUMS = [("timeouts recorded and evicted", 5), ("absences: the block asked for", 5)]
