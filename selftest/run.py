#!/usr/bin/env python3
"""Exercise the checks on edited scratch copies of the package (development aid, not a registered check).

Each case in selftest/cases/*.py is (name, [(file, old, new), ...], {property: expected exit}).
An edit replaces one exact occurrence; expected 1 = must be reported, 0 = must stay quiet.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


def load():
    out = []
    d = os.path.join(HERE, "cases")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            out += [(f[:-3], *c) for c in m.CASES]
    return out


def one(case):
    mod, name, edits, expect = case
    tmp = tempfile.mkdtemp(prefix="selftest.")
    try:
        shutil.copytree(os.path.join(REPO, "givenergy_modbus"), os.path.join(tmp, "givenergy_modbus"), ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(tmp, "givenergy_modbus", f)
            s = open(p).read()
            if s.count(old) < 1:
                return [f"BAD CASE {mod}/{name}: text not found in {f}: {old[:60]!r}"]
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return [f"BAD CASE {mod}/{name}: {e}"]
        res = []
        for pid, want in expect.items():
            ev = os.path.join(tmp, "ev")
            try:
                r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), pid], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": tmp, "VERIF_EVIDENCE": ev}, timeout=300)
            except subprocess.TimeoutExpired:
                res.append(f"FAIL {mod}/{name} {pid} want {want} got no answer in 300 s")
                continue
            good = r.returncode == want
            first = "; ".join(x.strip().replace(tmp, "") for x in r.stdout.strip().splitlines()[:2])
            if not good and r.stderr:
                first += " || " + r.stderr.strip().splitlines()[-1]
            res.append(f"{'ok  ' if good else 'FAIL'} {mod}/{name} {pid} want {want} got {r.returncode}: {first[:260]}")
        return res
    finally:
        shutil.rmtree(tmp)


def main():
    pats = sys.argv[1:]
    cases = [c for c in load() if not pats or any(p in f"{c[0]}/{c[1]}" for p in pats)]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for res in ex.map(one, cases):
            for line in res:
                if not line.startswith("ok") or pats:
                    print(line)
                bad += not line.startswith("ok")
    print(f"{len(cases)} cases, {bad} unexpected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
