#!/usr/bin/env python3
"""Make or re-verify planted bugs (development aid).

  mkseed.py make SPEC.py...   build seeded/<id>/ from a spec (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS), verify, keep only if good
  mkseed.py verify [ID...]    re-verify existing ones: applies, tests pass, demo 0 before / nonzero after, checks' verdict
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC"}
DEMO_SH = '#!/bin/bash\nset -u\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    t = tempfile.mkdtemp(prefix="seed.")
    r = os.path.join(t, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    return t, r


def tests(r):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    x = os.path.join(r, "..", "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--hypothesis-seed=0", "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"], cwd=r, env=ENV, capture_output=True)
    import xml.etree.ElementTree as ET

    good = set()
    bad = []
    for tc in ET.parse(x).getroot().iter("testcase"):
        n = f"{tc.get('classname')}::{tc.get('name')}"
        if any(c.tag in ("failure", "error") for c in tc):
            bad.append(n)
        else:
            good.add(n)
    return sorted(n for n in bad if n in base) + sorted(base - good - set(bad))[:5]


def demo(d, r):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, env=ENV, capture_output=True, text=True, timeout=280)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def verify(d, with_tests=True):
    """(ok, text)"""
    sid = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t, r = copy()
    try:
        rc0, o0 = demo(d, r)
        ap = subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if ap.returncode:
            return False, f"{sid}: does not apply: {ap.stderr}"
        rc1, o1 = demo(d, r)
        fails = tests(r) if with_tests else []
        pid = meta["property"]
        c = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), pid], capture_output=True, text=True, env={**ENV, "VERIF_REPO": r, "VERIF_EVIDENCE": os.path.join(t, "ev")})
        caught = {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(c.returncode, c.returncode)
        ok = rc0 == 0 and rc1 != 0 and not fails
        line = (c.stdout.strip().splitlines() or [""])[0].replace(r, "")
        txt = f"{'good' if ok else 'BAD '} {sid} [{pid}] {caught}: {line[:200]}"
        if rc0:
            txt += f"\n    demo fails unpatched: {o0}"
        if not rc1:
            txt += f"\n    demo passes patched: {o1}"
        if fails:
            txt += f"\n    tests fail: {fails[:4]}"
        return ok, txt
    finally:
        shutil.rmtree(t)


def make(spec):
    sp = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    def one(s):
        t, r = copy()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(r, "givenergy_modbus", f)
                src = open(p).read()
                if src.count(old) != 1:
                    return f"BAD  {s['id']}: {src.count(old)} occurrences in {f} of {old[:60]!r}"
                open(p, "w").write(src.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(t)
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, txt = verify(d)
        if not ok:
            shutil.rmtree(d)
        return txt

    only = set(filter(None, os.environ.get("ONLY", "").split(",")))
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, [s for s in m.SEEDS if not only or s["id"] in only]))


def main():
    if sys.argv[1] == "make":
        with ThreadPoolExecutor(4) as ex:
            for o in ex.map(make, sys.argv[2:]):
                print("\n".join(o))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        nt = bool(os.environ.get("NOTESTS"))
        with ThreadPoolExecutor(4) as ex:
            for ok, txt in ex.map(lambda i: verify(os.path.join(VERIF, "seeded", i), not nt), ids):
                print(txt)


if __name__ == "__main__":
    main()
