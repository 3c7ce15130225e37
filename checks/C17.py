"""A request is attempted a bounded number of times and succeeds only with a good response."""
import ast

from sa.check import facts_str
from sa.core import K, NONE, Term, is_k, kval, show
from sa.match import lin
from sa.sendermodel import attempts, result_of, sender, strip

TITLE = "A request is sent at most retries+1 times and ends in success or TimeoutError"
RULE = (
    "send_request_and_await_response() is explored with a timeout possible at each wait. Its attempt loop queues at most one frame per turn and its counter, found from the loop "
    "condition, starts so that at most retries+1 turns happen and grows by one each turn. A returned response is known not to be an error response; running out of attempts raises TimeoutError. "
    "Each turn that goes on to another attempt, and no other, counts one retry against the request's device when warn_timeout is set, and pauses retry_delay when that is positive."
)
R = Term("param", "retries")


def check(chk):
    I = chk.interp()
    fn, rows, loops, pol = sender(chk, I)
    where = chk.loc(I, fn)
    seen = 0
    for r in loops:
        n = len(attempts(r.seg))
        if n == 0 and r.kind in ("loop:next", "loop:continue"):
            if not any(attempts(x.seg) for x in loops if x.node is r.node):
                continue
            # a turn that gives up its attempt must still be counted
        if n > 1:
            chk.violation("burst", fn.name, where, "one turn of the attempt loop queues the request more than once")
        if r.kind in ("loop:next", "loop:continue"):
            seen += 1
            if turn(chk, I, fn, r, where, pol):
                again(chk, I, fn, r, where)
    if not seen:
        chk.require(False, "the attempt loop of send_request_and_await_response")
    for r in rows:
        if r.kind == "return":
            fut = result_of(r.val)
            err = None
            for f, b in r.st.facts.items():
                if f.op == "attr" and f.args[1] == "error" and (f.args[0] == r.val or strip(f.args[0]) == strip(r.val) or result_of(f.args[0]) == fut is not None):
                    err = b
            if fut is None or r.val == NONE:
                chk.violation("not-a-response", fn.name, where, f"the call can end without a response or an exception: returns {show(r.val)} ({facts_str(r.st)})")
            elif err is not False:
                chk.violation("error-returned", fn.name, where, f"an error response can be returned as if it were good ({facts_str(r.st)})")
            else:
                chk.ok("good responses returned")
        elif r.kind == "raise":
            gave_up = exhausted(r)
            if gave_up:
                if r.val.op == "exc" and I.exc_sub(r.val.args[0], Term("ext", "TimeoutError")) and "ConnectionLost" not in show(r.val):
                    chk.ok("giving up raises TimeoutError")
                else:
                    chk.violation("wrong-failure", fn.name, where, f"running out of attempts raises {show(r.val)}")


def exhausted(r):
    """The loop condition is known false and no wait failed after the last attempt."""
    return any(f.op == "cmp" and f.args[0] in ("le", "lt") and mentions(f.args[1 if b else 2], R) for f, b in r.st.facts.items())


def head_env(I, st):
    return {n: v for n, v in I.envget(st, st.env).data.items() if isinstance(v, Term)}


def counter(I, r, pol):
    """(initial value, step, strict) of the loop's counter, or a For range's bound."""
    node = r.node
    if isinstance(node, (ast.For, ast.AsyncFor)):
        for n, v in head_env(I, r.st).items():
            if v.op == "elem" and v.args[0].op in ("range", "call"):
                a = v.args[0].args if v.args[0].op == "range" else v.args[0].args[1]
                return ("range", a, v)
        return None
    h = head_env(I, r.head)
    e = head_env(I, r.st)
    for f, b in r.st.facts.items():
        if f.op != "cmp" or f.args[0] not in ("le", "lt"):
            continue
        for n, hv in h.items():
            if hv.op != "havoc":
                continue
            x, y = f.args[1], f.args[2]
            if hv not in (x, y) and not mentions(x, hv) and not mentions(y, hv):
                continue
            if e.get(n) is None:
                continue
            return ("while", n, hv, e[n], f, b)
    return None


def mentions(t, x):
    if t == x:
        return True
    return any(mentions(a, x) for a in t.args if isinstance(a, Term))


def lin2(I, st, t, hv):
    """Linear form with the loop variable as a field."""
    return lin(I, st, sub(t, hv, Term("param", "$n")))


def sub(t, a, b):
    if t == a:
        return b
    return Term(t.op, *[sub(x, a, b) if isinstance(x, Term) else x for x in t.args])


def turn(chk, I, fn, r, where, pol):
    c = counter(I, r, pol)
    if c is None:
        chk.violation("unbounded", fn.name, where, f"the attempt loop has no counter bounded by retries ({facts_str(r.st)})")
        return False
    if c[0] == "range":
        a = c[1]
        lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
        d = lin(I, r.st, Term("bin", "-", hi, lo))
        if d is not None and d.co == {"retries": 1} and d.k == 1 and (len(a) < 3 or a[2] == K(1)):
            chk.ok("turns counted")
            return True
        chk.violation("unbounded", fn.name, where, f"the attempt loop runs over {show(c[2].args[0])}, which is not retries+1 turns")
        return False
    _, n, hv, end, f, b = c
    step = lin2(I, r.st, Term("bin", "-", end, hv), hv)
    cond = lin2(I, r.st, Term("bin", "-", f.args[2], f.args[1]), hv)  # b: cond >= 0 (le) / > 0 (lt)
    if step is None or step.co or cond is None or set(cond.co) - {"$n", "retries"}:
        chk.violation("unbounded", fn.name, where, f"the counter {n} does not change by a fixed amount each turn: {show(hv)} becomes {show(end)}")
        return False
    init = next((head_env(I, st).get(n) for node, st in reversed(pol.enters) if node is r.node), None)
    if init is None:
        chk.violation("unbounded", fn.name, where, f"the counter {n} has no starting value")
        return False
    up = step.k
    if abs(up) != 1:
        chk.violation("not-counted", fn.name, where, f"a turn of the attempt loop changes the counter {n} by {up} ({facts_str(r.st)})")
        return False
    # continue while  cn*n + cr*retries + k  (>= 0 | > 0), possibly negated
    cn, cr, k = cond.co.get("$n", 0), cond.co.get("retries", 0), cond.k
    strict = f.args[0] == "lt"
    if b is False:
        cn, cr, k, strict = -cn, -cr, -k, not strict
    i0 = lin(I, r.st, init)
    if i0 is None or set(i0.co) - {"retries"} or cn * up != -1:
        chk.violation("unbounded", fn.name, where, f"the attempt loop is not bounded by retries: {show(f)} with {n} starting at {show(init)}")
        return False
    # turns = value of the condition at the start + 1 (non-strict) or + 0 (strict)
    t_co = cr + cn * i0.co.get("retries", 0)
    t_k = k + cn * i0.k + (0 if strict else 1)
    if (t_co, t_k) == (1, 1):
        chk.ok("turns counted", f"{show(f)} from {show(init)}")
        return True
    chk.violation("unbounded", fn.name, where, f"the attempt loop makes {t_co}*retries+{t_k} turns, not retries+1")
    return False


def next_turn(I, r):
    """Is another turn known to follow (True), known not to (False)?"""
    if isinstance(r.node, ast.While):
        I.sinks.append([])
        try:
            t, f = I.branch(r.node.test, r.st)
        finally:
            I.sinks.pop()
        return True if t and not f else False if f and not t else None
    v = next((x for x in head_env(I, r.st).values() if x.op == "elem"), None)
    if v is None:
        return None
    for c, yes in ((Term("cmp", "lt", v, R), True), (Term("cmp", "le", R, v), False), (Term("cmp", "eq", v, R), False), (Term("cmp", "le", Term("bin", "+", v, K(1)), R), True)):
        k = I.known(r.st, c)
        if k is not None:
            return yes if k else (not yes)
    return None


def truth(I, st, name):
    p = Term("param", name)
    k = I.known(st, p)
    if k is None:
        for f, b in st.facts.items():
            if f.op == "cmp" and f.args[0] == "lt" and f.args[1:] == (K(0), p):
                return b
            if f.op == "cmp" and f.args[0] == "le" and f.args[1:] == (p, K(0)):
                return not b
    return k


def again(chk, I, fn, r, where):
    recs = [e for e in r.seg if e.name == "record_retry"]
    more = next_turn(I, r)
    warn = truth(I, r.st, "warn_timeout")
    for e in recs:
        a = e.arg(0)
        if not (a is not None and a.op == "attr" and a.args[0] == Term("param", "request") and a.args[1] == "device_address"):
            chk.violation("wrong-device", fn.name, f"{fn.module.path}:{e.line()} ({fn.qual})", f"the retry is counted against {show(a)}")
    if len(recs) > 1:
        chk.violation("retry-count", fn.name, where, "one retry is counted more than once")
    elif recs and (warn is not True or more is not True):
        chk.violation("retry-count", fn.name, where, f"a retry is counted {'although no further attempt is made' if more is not True else 'for a probe (warn_timeout off)'} ({facts_str(r.st)})")
    elif not recs and warn is not False and more is not False:
        chk.violation("retry-count", fn.name, where, f"a consumed retry is not counted ({facts_str(r.st)})")
    else:
        chk.ok("retries counted")
    pause = [e for e in r.seg if e.name == "asyncio.sleep" and e.arg(0, "delay") == Term("param", "retry_delay")]
    delay = truth(I, r.st, "retry_delay")
    if more is not False and not pause and delay is not False:
        chk.violation("no-pause", fn.name, where, f"the next attempt follows without waiting retry_delay ({facts_str(r.st)})")
    else:
        chk.ok("pauses between attempts")


MINIMUMS = [("turns counted", 4), ("good responses returned", 1), ("giving up raises TimeoutError", 1), ("retries counted", 4), ("pauses between attempts", 4)]
