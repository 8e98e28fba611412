#!/usr/bin/env python3
"""Development tool (not used by any check): turn bug specifications into /verif/seeded/<ID>, confirming each in a private mount namespace.

usage: plant.py [--check-only] [--no-tests] spec.py|ID ...     (8 at a time)

A specification is a Python file with ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO. The change is made in a copy of /repo under /tmp, which
is then mounted over /repo in a namespace of its own, together with a copy of /verif: neither /repo nor /verif/evidence is touched."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

SH = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_CACHE_DIR=$T TMPDIR=$T HOME=$T
/opt/venv/bin/python -W ignore "$D/demo.py"
"""
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(repo, verif, cmd, timeout=1200):
    m = f"mount --bind {repo} /repo && " + (f"mount --bind {verif} /verif && " if verif else "")
    return subprocess.run(["unshare", "-Urm", "bash", "-c", m + cmd], capture_output=True, text=True, timeout=timeout, cwd="/tmp")


def one(spec):
    t0 = time.time()
    only = not spec.endswith(".py")
    if not only:
        g = {}
        exec(open(spec).read(), g)
        bid, prop = g["ID"], g["PROP"]
    else:
        bid = spec
        prop = json.load(open(f"{V}/seeded/{bid}/meta.json"))["property"]
    sd = f"{V}/seeded/{bid}"
    w = f"/tmp/plant/{bid}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        sh(f"cp -a /repo {w}/repo")
        if only:
            r = sh(f"git -C {w}/repo apply {sd}/patch.diff")
            if r.returncode:
                return f"{bid}: patch does not apply: {r.stderr[:200]}"
        else:
            for f, a, b in g["EDITS"]:
                p = f"{w}/repo/src/sorcha/{f}" if not f.startswith("src/") else f"{w}/repo/{f}"
                s = open(p).read()
                if s.count(a) != 1:
                    return f"{bid}: {f}: text found {s.count(a)} times: {a[:50]!r}"
                open(p, "w").write(s.replace(a, b))
            shutil.rmtree(sd, ignore_errors=True)
            os.makedirs(sd)
            open(f"{sd}/patch.diff", "w").write(sh(f"git -C {w}/repo diff").stdout)
            open(f"{sd}/demo.sh", "w").write(SH)
            os.chmod(f"{sd}/demo.sh", 0o755)
            open(f"{sd}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
            json.dump({"property": prop, "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{sd}/meta.json", "w"), indent=1)
        out = []
        if "--check-only" not in sys.argv:
            a = sh(f"bash {sd}/demo.sh", cwd="/repo")
            b = inside(f"{w}/repo", None, f"cd /repo && bash {sd}/demo.sh")
            out.append(f"demo {a.returncode}/{b.returncode}")
            if a.returncode:
                out.append("CLEAN DEMO FAILS: " + (a.stdout + a.stderr)[-300:])
            if not b.returncode:
                out.append("DEMO DOES NOT SEE THE BUG: " + (b.stdout + b.stderr)[-300:])
            else:
                out.append((b.stdout + b.stderr).strip().split("\n")[-1][:120])
        if "--no-tests" not in sys.argv and "--check-only" not in sys.argv:
            t = inside(f"{w}/repo", None, f"""cd /repo; export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR={w}/nb MPLBACKEND=Agg; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --timeout=300 \
 --continue-on-collection-errors --basetemp={w}/pt --ignore=tests/sorcha/test_demo_chunking.py --ignore=tests/sorcha/test_demo_command_line.py --ignore=tests/sorcha/test_demo_end2end.py \
 --ignore=tests/sorcha/test_sorcha_copy_demo_files.py --ignore=tests/ephemeris/test_pixdict.py -o junit_family=xunit2 --junitxml={w}/j.xml; /usr/bin/python3 /opt/vp/results.py {w}/res.json junit:{w}/j.xml""")
            try:
                res = json.load(open(f"{w}/res.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(res.get("passed", []))
                miss = [x for x in base if x not in passed]
                out.append(f"tests {len(base) - len(miss)}/{len(base)} {miss[:3]}")
            except Exception as e:
                out.append(f"tests? {e} {t.stdout[-200:]}")
        sh(f"mkdir -p {w}/verif && cp -a {V}/checks {V}/vlib {V}/data {V}/run.sh {V}/known_findings.txt {w}/verif/")
        sh(f"chmod +x {w}/verif/run.sh")
        t = time.time()
        c = inside(f"{w}/repo", f"{w}/verif", f"VERIF_SEED={os.environ.get('VERIF_SEED', '1')} timeout 900 /verif/run.sh {prop}")
        caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
        out.append(("CAUGHT " if caught else f"MISSED rc={c.returncode} ") + f"{time.time() - t:.0f}s " + (c.stdout.strip().split("\n")[0][:200] if caught else (c.stdout + c.stderr)[-300:]))
        return f"{bid} [{prop}]: " + "\n     ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, a):
            print(r, flush=True)
