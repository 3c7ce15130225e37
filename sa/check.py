"""Shared harness for the checks: exploration entry points, reporting, evidence."""
from __future__ import annotations

import json
import multiprocessing
import multiprocessing.connection
import os
import re
import sys
import time
import traceback

from .core import AnalysisError, FuncInfo, K, Term, show
from .interp import Interp, Policy, State

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Path:
    """One explored path through a function: how it ended and under which facts."""

    __slots__ = ("kind", "st", "val", "node", "where")

    def __init__(self, kind, st, val, node=None, where=None):
        self.kind, self.st, self.val, self.node, self.where = kind, st, val, node, where


class Check:
    def __init__(self, pid, title, rule):
        self.pid = pid
        self.title = title
        self.rule = rule
        self.findings = []  # dict(rule, construct, where, msg)
        self.counts = {}
        self.obligations = 0
        self.samples = []
        self.functions = set()
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()
        self._interp = None
        self.interps = []

    # ---------------------------------------------------------------- program
    def interp(self, policy=None):
        """One loaded interpreter per check; the policy may be swapped."""
        if self._interp is None:
            self._interp = Interp()
            self._interp.load_all()
            self._interp.stats["functions"] = set()
            self.interps.append(self._interp)
        I = self._interp
        I.policy = policy or Policy()
        return I

    # --------------------------------------------------------------- parallel
    def parallel(self, parts, workers=8):
        """Run independent parts (functions of no argument) in forked processes and merge what they report, in order."""
        self.interp()
        ctx = multiprocessing.get_context("fork")
        pending, running, results = list(enumerate(parts)), {}, {}
        while pending or running:
            while pending and len(running) < workers:
                i, fn = pending.pop(0)
                rx, tx = ctx.Pipe(False)
                pr = ctx.Process(target=self._part, args=(fn, tx), daemon=True)
                pr.start()
                tx.close()
                running[rx] = (i, pr)
            for rx in multiprocessing.connection.wait(list(running)):
                i, pr = running.pop(rx)
                try:
                    results[i] = rx.recv()
                except EOFError:
                    results[i] = {"error": "a worker of the analysis died"}
                pr.join()
        failed = None
        for i in range(len(parts)):
            r = results[i]
            failed = failed or r.get("error")
            self.obligations += r.get("obligations", 0)
            for k, n in r.get("counts", {}).items():
                self.count(k, n)
            self.samples += r.get("samples", [])
            self.functions |= r.get("functions", set())
            for f in r.get("findings", []):
                self.violation(f["rule"], f["construct"], f["where"], f["msg"])
            for k, n in r.get("stats", {}).items():
                self._interp.stats[k] += n
        if failed:
            raise AnalysisError(failed)

    def _part(self, fn, tx):
        self.obligations, self.counts, self.samples, self.findings = 0, {}, [], []
        s = self._interp.stats
        base = {k: s[k] for k in ("steps", "calls")}
        err = None
        try:
            fn()
        except AnalysisError as e:
            err = str(e)
        except Exception:
            err = "internal error of the analysis: " + traceback.format_exc(limit=-4)
        tx.send({
            "error": err, "obligations": self.obligations, "counts": self.counts, "samples": self.samples, "functions": self.functions,
            "findings": self.findings, "stats": {k: max(0, s[k] - base[k]) for k in base},
        })
        tx.close()

    # -------------------------------------------------------------- reporting
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what, sample=None):
        """One discharged obligation."""
        self.obligations += 1
        self.count(what)
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def violation(self, rule, construct, where, msg):
        f = {"rule": rule, "construct": construct, "where": where, "msg": msg}
        for g in self.findings:
            if g["rule"] == rule and g["construct"] == construct and g["where"] == where and g["msg"].split(" (")[0] == msg.split(" (")[0]:
                g["paths"] = g.get("paths", 1) + 1
                return
        self.findings.append(f)

    def require(self, cond, what):
        if not cond:
            raise AnalysisError(f"anchor not found: {what}")

    def minimum(self, what, n):
        if self.counts.get(what, 0) < n:
            raise AnalysisError(f"only {self.counts.get(what, 0)} instances of '{what}' were analysed, expected at least {n}")

    # -------------------------------------------------------------- exploring
    def explore(self, I, fn, args=None, kwargs=None, st=None, bind_self=None):
        """All abstract paths of `fn` from an unknown state.

        Parameters not given are fresh symbols Term('param', name).
        """
        return explore(self, I, fn, args, kwargs, st)

    def loc(self, I, fn, node=None):
        n = node if node is not None else fn.node
        return f"{fn.module.path}:{getattr(n, 'lineno', fn.node.lineno)} ({fn.qual})"


def params_of(fn):
    if fn.wrapped is not None and fn.node.args.vararg:
        own = [p.arg for p in fn.node.args.kwonlyargs]
        pos, kwo, va, kw = params_of(fn.wrapped)
        return pos, kwo + [k for k in own if k not in kwo], va, kw
    a = fn.node.args
    out = [p.arg for p in a.posonlyargs + a.args]
    return out, [p.arg for p in a.kwonlyargs], (a.vararg.arg if a.vararg else None), (a.kwarg.arg if a.kwarg else None)


def explore(chk, I, fn, args=None, kwargs=None, st=None, types=None):
    given = dict(args or {})
    pos, kwo, va, kw = params_of(fn)
    vals = []
    anns = {}
    f = fn
    while f is not None:
        a = f.node.args
        anns.update({p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs})
        f = f.wrapped
    st = st.copy() if st is not None else State()
    for p in pos:
        v = given.pop(p, None)
        if v is None:
            if p in ("self",) and fn.cls is not None:
                v = Term("param", "self")
                I.types[v] = ("cls", fn.cls)
            elif p == "cls" and fn.cls is not None and fn.kind == "class":
                v = Term("cls", fn.cls)
            else:
                v = Term("param", p)
                if anns.get(p) is not None:
                    ty = I.resolve_ann(anns[p], fn.module)
                    I.types.pop(v, None)
                    if ty is not None:
                        I.types[v] = ty
        vals.append(v)
    kws = {}
    for p in kwo:
        v = given.pop(p, None)
        if v is None:
            v = Term("param", p)
            I.types.pop(v, None)
            if anns.get(p) is not None:
                ty = I.resolve_ann(anns[p], fn.module)
                if ty is not None:
                    I.types[v] = ty
        kws[p] = v
    if given:
        raise AnalysisError(f"{fn.qual} has no parameter(s) {sorted(given)}")
    I.sinks = [[]]
    I.stack = []
    I.ctx = ()
    I.yield_cb = []
    before = len(I.stats["functions"])
    res = I.call_fn(fn, vals, kws, st, fn.node)
    raised = I.sinks[0]
    I.sinks = [[]]
    paths = [Path("return", s, v, None) for s, v in res] + [
        Path("raise", s, e, n, None) for s, e, n in raised
    ]
    if chk is not None:
        chk.functions.add(fn.qual)
        chk.functions |= I.stats["functions"]
        chk.count("paths", len(paths))
    return paths


def facts_str(st, limit=8):
    out = []
    for f, b in list(st.facts.items())[-limit:]:
        out.append(("" if b else "not ") + show(f))
    return "; ".join(out)


# ------------------------------------------------------------------- running
def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def run(pid, title, rule, body, level="other", level_explanation="", minimums=()):
    """Run one check: 0 held, 1 violated, 2 the analysis could not answer."""
    chk = Check(pid, title, rule)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        sys.setrecursionlimit(20000)
        body(chk)
        for what, n in minimums:
            if not chk.findings:
                chk.minimum(what, n)
    except AnalysisError as e:
        if not chk.findings:
            print(f"ERROR property={pid} analysis could not decide: {e}")
            return 2
        chk.notes.append(f"analysis stopped after a finding: {e}")
    except Exception:
        traceback.print_exc()
        if not chk.findings:
            print(f"ERROR property={pid} internal error of the analysis")
            return 2
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    listed, fresh = [], []
    for f in chk.findings:
        m = next((k for k in known if k["rule"] == f["rule"] and k["construct"] == f["construct"]), None)
        (listed if m else fresh).append((f, m))
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    I = chk._interp
    cov = {
        "explanation": level_explanation or "Sound-by-construction path enumeration of the current source by an abstract interpreter; nothing of the program is run.",
        "rule": rule,
        "obligations": chk.obligations,
        "functions_analysed": len(chk.functions),
        "counts": chk.counts,
        "functions": sorted(chk.functions)[:120],
        "samples": chk.samples[:40],
    }
    if I is not None:
        cov["modules"] = len(I.prog.modules)
        cov["abstract_steps"] = I.stats["steps"]
        cov["calls_resolved"] = I.stats["calls"]
    viols = []
    for f, _ in fresh:
        viols.append(f"{f['rule']} at {f['where']}: {f['construct']}: {f['msg']}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "wall_s": round(time.time() - chk.t0, 3),
        "assumptions": chk.assumptions,
    }
    if viols:
        ev["violations"] = len(fresh)
        cov["violation_details"] = [{"rule": f["rule"], "construct": f["construct"], "where": f["where"], "message": f["msg"]} for f, _ in fresh]
    if listed:
        ev["known_findings"] = [f["construct"] for f, _ in listed]
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f, k in listed:
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{f['rule']}: {f['construct']}]")
    if fresh:
        rp = os.path.join(evdir, f"{pid}.violation.json")
        with open(rp, "w") as fh:
            json.dump({"property": pid, "violations": [f for f, _ in fresh]}, fh, indent=1, default=str)
        for f, _ in fresh[:25]:
            print(f"  {f['where']}: [{f['rule']}] {f['construct']}: {f['msg']}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violation.json")
        return 1
    rp = os.path.join(evdir, f"{pid}.violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    print(f"OK property={pid} obligations={chk.obligations} functions={len(chk.functions)} {chk.counts} in {time.time() - chk.t0:.1f}s")
    return 0
