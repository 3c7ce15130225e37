"""A dropped connection says nothing about which devices exist."""
from sa.check import facts_str
from sa.clientmodel import events
from sa.core import Term, show
from sa.detectmodel import SEND, explorations, is_lost_event

TITLE = "A lost connection is never taken for an absent device"
RULE = (
    "Every client method that both sends requests and records absences is explored with ConnectionLost and TimeoutError possible at each send. "
    "On a path where a send raised ConnectionLost, that same exception must leave the method, and nothing after it may mark a device absent or drop a cache (a read in the sequencing method itself, after the last probe, may be skipped)."
)
DROPS = ("mark_absent", "pop", "invalidate_presence")


def check(chk):
    I = chk.interp()
    lost = I.cls("exceptions:ConnectionLost")
    n = 0
    for fn, rows, opaque in explorations(chk, I):
        where = chk.loc(I, fn)
        n += 1
        for kind, st, val, evs in rows:
            at = next((i for i, e in enumerate(evs) if is_lost_event(e)), None)
            if at is None:
                known = next((i for i, e in reversed(list(enumerate(evs))) if e.name == "known-lost"), None)
                if known is None or any(e.name == SEND or e.name in opaque for e in evs[known + 1 :]):
                    continue
                line = f"{fn.module.path}:{evs[known].line()} ({fn.qual})"
                if kind != "raise":
                    chk.violation("loss-ignored", fn.name, line, f"the connection is known to be lost but discovery carries on without it ({facts_str(st)})")
                elif evs[known].args[0].args[0] == "_connection_lost" and (val.op != "exc" or not I.exc_sub(val.args[0], Term("cls", lost))):
                    chk.violation("loss-renamed", fn.name, line, f"the connection is known to be lost but {show(val)} is raised")
                else:
                    chk.ok("known losses that leave the method", f"{fn.name}:{evs[known].line()}")
                continue
                continue
            after = [e for e in evs[at + 1 :] if e.name in DROPS]
            line = f"{fn.module.path}:{evs[at].line()} ({fn.qual})"
            if after:
                chk.violation("loss-as-absence", fn.name, line, f"after the connection is lost during a probe, {after[0].name}() is called as if the device had not answered ({facts_str(st)})")
            elif opaque and evs[at].name == "raises:" + SEND and not kind.startswith("loop") and not any(e.name == SEND or e.name in opaque for e in evs[at + 1 :]):
                chk.ok("losses on a read that probes nothing, with no probe after it")
            elif kind != "raise":
                chk.violation("loss-swallowed", fn.name, line, f"the connection is lost during a probe but discovery carries on ({facts_str(st)})")
            elif val.op != "exc" or not I.exc_sub(val.args[0], Term("cls", lost)):
                chk.violation("loss-renamed", fn.name, line, f"the connection is lost during a probe but {show(val)} is raised")
            else:
                chk.ok("lost connections that leave the method", f"{fn.name}:{evs[at].line()}")
    chk.count("methods that record absences", n)


MINIMUMS = [("methods that record absences", 3), ("lost connections that leave the method", 6)]
