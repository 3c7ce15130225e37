"""A response reaches the cache before its waiter, and corrupt ones never reach a waiter."""
from sa.check import facts_str
from sa.consumermodel import consumer, subterms
from sa.core import K, NONE, Term, is_k, kval, show

TITLE = "A waiter wakes only for a good response already in the cache"
RULE = (
    "The receiving task's loop over decoded messages is explored with an arbitrary message. Every path for a TransparentResponse calls plant.update() with that message; every "
    "set_result() comes after that, carries that message, is on a future known not to be done, and is on a path that knows the message passed its CRC (or lenient commits are on). "
    "A good response whose registered future is pending always resolves it."
)
TR = "pdu.transparent:TransparentResponse"


def check(chk):
    I = chk.interp()
    t, ps, rows = consumer(chk, I)
    where = chk.loc(I, t)
    for r in rows:
        tr = r.is_a(I, TR)
        ups = [i for i, e in enumerate(r.evs) if e.name == "update" and (e.path() or "").endswith("plant") and e.args[:1] == (r.msg,)]
        if tr is True and not ups:
            chk.violation("not-cached", t.name, where, f"a response is dropped without plant.update() ({facts_str(r.st)})")
        elif tr is True and len(ups) > 1:
            chk.violation("cached-twice", t.name, where, f"a response is applied to the plant {len(ups)} times ({facts_str(r.st)})")
        elif ups:
            chk.ok("responses cached")
        for e in r.evs:
            if e.name == "update" and (e.path() or "").endswith("plant") and e.args[:1] != (r.msg,):
                chk.violation("not-cached", t.name, f"{t.module.path}:{e.line()} ({t.qual})", f"plant.update() is given {show(e.args[0]) if e.args else 'nothing'} instead of the message")
        sets = [i for i, e in enumerate(r.evs) if e.name == "set_result"]
        for i in sets:
            e = r.evs[i]
            w = f"{t.module.path}:{e.line()} ({t.qual})"
            if e.arg(0, "result") != r.msg:
                chk.violation("wrong-result", t.name, w, f"the waiter is handed {show(e.arg(0, 'result'))} instead of the message received")
                continue
            if not ups or ups[0] > i:
                chk.violation("before-cache", t.name, w, f"the waiter is woken before the plant has the response ({facts_str(r.st)})")
                continue
            if not good(I, r):
                chk.violation("corrupt-result", t.name, w, f"a response that may have failed its CRC resolves the waiter ({facts_str(r.st)})")
                continue
            if not any(x.name in ("done", "cancelled") and x.base == e.base and I.known(r.st, x.res) is False and x.name == "done" for x in r.evs[:i]):
                chk.violation("done-future", t.name, w, f"a future that may already be done is resolved, which raises and ends the task ({facts_str(r.st)})")
                continue
            chk.ok("waiters woken after the cache", facts_str(r.st))
        if tr is True and not sets and r.kind in ("next", "continue"):
            if bad(I, r):
                chk.ok("corrupt responses withheld")
            elif no_waiter(I, r):
                chk.ok("responses nobody waits for")
            else:
                chk.violation("not-delivered", t.name, where, f"a good response with a pending waiter does not wake it ({facts_str(r.st)})")


def flag(I, r, name):
    """What is known of an attribute of the message (False when it does not have it)."""
    res = None
    for f, b in r.st.facts.items():
        if f.op == "attr" and f.args[0] == r.msg and f.args[1] == name:
            res = b
        elif f.op == "hasattr" or (f.op == "call" and show(f.args[0]) == "hasattr"):
            a = f.args[1] if f.op == "call" else f.args
            if a[0] == r.msg and a[1] == K(name) and b is False:
                return False
        elif f.op == "cmp" and f.args[0] in ("is", "eq") and any(x.op == "attr" and x.args[0] == r.msg and x.args[1] == name for x in f.args[1:]):
            k = [x for x in f.args[1:] if is_k(x)]
            if k and isinstance(kval(k[0]), bool):
                res = kval(k[0]) if b else (not kval(k[0]))
    # a class that cannot carry the flag
    if name == "crc_failed" and res is None and r.is_a(I, "pdu.read_registers:ReadRegistersResponse") is False:
        return False
    return res


def good(I, r):
    return flag(I, r, "crc_failed") is False or flag(I, r, "lenient_crc_commit") is True


def bad(I, r):
    return flag(I, r, "crc_failed") is True and flag(I, r, "lenient_crc_commit") is False or (flag(I, r, "crc_failed") is True and flag(I, r, "lenient_crc_commit") is None)


def no_waiter(I, r):
    for f, b in r.st.facts.items():
        if f.op in ("call", "idx") and b is False and any(x.op == "attr" and x.args[1] == "expected_responses" for x in subterms(f)) and not (f.op == "call" and show(f.args[0]).endswith("done")):
            return True
        if f.op == "cmp" and f.args[0] == "is" and f.args[2] == NONE and b is True and any(x.op == "attr" and x.args[1] == "expected_responses" for x in subterms(f)):
            return True
        if f.op == "cmp" and f.args[0] == "in" and b is False and f.args[2].op == "attr" and f.args[2].args[1] == "expected_responses":
            return True
    return any(e.name == "done" and I.known(r.st, e.res) is True for e in r.evs)


MINIMUMS = [("responses cached", 4), ("waiters woken after the cache", 1), ("corrupt responses withheld", 1), ("responses nobody waits for", 1)]
