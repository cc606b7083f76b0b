#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE < spec
spec (python dict on stdin): old, new (or edits=[(file, old, new)]), needs, breaks, demo.
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} from a scratch copy of
/repo and confirms: builds, stable tests pass, demo 0 without and nonzero with.
plant.py --recheck ID confirms an existing one."""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
SH = ('#!/bin/sh\n# run with cwd = the repository\nD="$(cd "$(dirname "$0")" && pwd)"\n'
      'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
      'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
      'PYTHONPATH="$PWD" exec "$PY" -W ignore "$D/demo.py"\n')


def main():
    recheck = sys.argv[1] == "--recheck"
    sid = sys.argv[2] if recheck else sys.argv[1]
    out = f"{V}/seeded/{sid}"
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    w = d + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", w])
        if recheck:
            subprocess.check_call(["git", "-C", w, "apply", out + "/patch.diff"])
        else:
            prop, fn = sys.argv[2:4]
            spec = eval(sys.stdin.read())
            edits = spec.get("edits") or [(fn, spec["old"], spec["new"])]
            for f, o, n in edits:
                p = os.path.join(w, f)
                s = open(p, encoding="utf8").read()
                assert s.count(o) == 1, (f, s.count(o))
                open(p, "w", encoding="utf8").write(s.replace(o, n))
            diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(spec["demo"].lstrip())
            open(out + "/demo.sh", "w").write(SH)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": spec["needs"],
                       "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        pt = open(out + "/patch.diff").read()
        if ".pyx" in pt or ".c\n" in pt:
            e = dict(os.environ, CFLAGS="-DPyUnicode_GetSize=PyUnicode_GetLength")
            subprocess.run("rm -rf build electrode/*.so electrode/cexpressions.c; "
                           "/opt/venv/bin/python setup.py build_ext --inplace --force >build.log 2>&1",
                           shell=True, cwd=w, env=e)
        r0 = subprocess.run(["sh", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["sh", out + "/demo.sh"], cwd=w, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-1500:])
        msg = (r1.stderr.strip().splitlines() or [""])[-1][:100]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                            "-p", "electrode_seed", "--timeout=300", "--tb=no", "--doctest-modules", "-rA",
                            "electrode/tests", "electrode/transformations.py"],
                           cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, MPLBACKEND="Agg", PYTHONPATH="/opt/vp/plugin:" + w,
                                    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set()
        for l in t.stdout.splitlines():
            if l.startswith("PASSED"):
                f, _, rest = l[7:].split(" ")[0].partition("::")
                f = f.replace(".py", "").replace("/", ".")
                passed.add(f + "." + rest if "::" in rest else f + "::" + rest)
        miss = sorted(stable - passed)
        print(f"{sid}: demo clean={r0.returncode} patched={r1.returncode} [{msg}]; stable missing: {len(miss)} {miss[:4]}",
              "OK" if ok and not miss else "*** BAD ***")
    finally:
        shutil.rmtree(d)


main()
