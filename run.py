#!/usr/bin/env python3
"""usage: run.py PROPERTY [--tier quick|thorough] | run.py --replay FILE"""
import sys
import os
if "VT_REEXEC" not in os.environ:
    os.environ["VT_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/veriftools/pyvenv/bin/python3", ["/opt/veriftools/pyvenv/bin/python3"] + sys.argv)
import json
import time
import shutil
import subprocess
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def scratch(build):
    """a throw-away copy of the package as it stands, with the extensions built from it when needed"""
    d = tempfile.mkdtemp(prefix="verif-")
    os.mkdir(d + "/electrode")
    for root, dirs, files in os.walk(REPO + "/electrode"):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "tests")]
        rel = os.path.relpath(root, REPO + "/electrode")
        os.makedirs(os.path.join(d, "electrode", rel), exist_ok=True)
        for f in files:
            if f.endswith((".so", ".pyc")) or f == "cexpressions.c":
                continue
            shutil.copy(os.path.join(root, f), os.path.join(d, "electrode", rel, f))
    note = ""
    if build:
        env = dict(os.environ, CFLAGS="-DPyUnicode_GetSize=PyUnicode_GetLength -O1 -w", PYTHONDONTWRITEBYTECODE="1")
        shutil.copy(REPO + "/setup.py", d + "/setup.py")
        for f in ("README.rst", "README", "README.md"):
            if os.path.exists(REPO + "/" + f):
                shutil.copy(REPO + "/" + f, d)
        r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            note = "build of the extensions failed: " + r.stdout.decode(errors="replace")[-800:]
    return d, note


def battery(pid, mode_args, build, timeout):
    f = os.path.join(HERE, "battery", pid + ".py")
    if not os.path.exists(f):
        return None
    d, note = scratch(build)
    try:
        env = dict(os.environ, PYTHONPATH=d + ":" + os.path.join(HERE, "battery"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLCONFIGDIR=d, HOME=d, PYTHONHASHSEED="0", VERIF_SRC=d)
        r = subprocess.run([PY, "-W", "ignore", f] + mode_args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
        for line in r.stdout.decode(errors="replace").splitlines():
            if line.startswith("BATTERY "):
                b = json.loads(line[8:])
                b["note"] = note
                return b
        return dict(ran={}, fails=[dict(case="import", seed=0, error="the battery did not finish: " +
                                        r.stderr.decode(errors="replace")[-1200:])], note=note)
    except subprocess.TimeoutExpired:
        return dict(ran={}, fails=[], note="battery timed out after %d s" % timeout, cut=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding: "):
                p = line[len("finding: "):].split(" ", 2)
                out.append((p[0].split("=")[1], p[1].split("=", 1)[1], p[2]))
    except IOError:
        pass
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    import threading
    from pyvc import harness as H
    mod = importlib.import_module("checks." + pid)
    info = getattr(mod, "INFO", {})
    bat = {}

    def runbat():
        try:
            bat["r"] = battery(pid, ["run", str(seed), tier, str(60 if tier == "quick" else 400)], info.get("build", False),
                               240 if tier == "quick" else 700)
        except Exception:
            bat["r"] = dict(ran={}, fails=[], note="battery error: " + traceback.format_exc()[-600:])
    th = threading.Thread(target=runbat)
    obs = H.OBS
    res = H.run_all(obs, seed, jobs=8, budget=600 if tier == "quick" else 700)
    th.start()
    th.join()
    b = bat["r"]
    items = []
    for o in obs:
        for it in res[o.name]["items"]:
            items.append((o, it))
    failed = [(o, i) for o, i in items if i[1] != "proved" and not o.bounded]
    nob = len([1 for o, i in items if not o.bounded])
    kf = [k for k in known() if k[0] == pid]
    out = []
    viol = []
    bf = list(b["fails"]) if b else []
    for p, key, txt in kf:
        hit = [f for f in bf if "case:" + f["case"] == key]
        hob = [(o, i) for o, i in failed if "ob:%s/%s" % (o.name, i[0]) == key]
        if hit or hob:
            out.append("KNOWN-FINDING: property=%s %s" % (pid, txt))
        bf = [f for f in bf if f not in hit]
        failed = [x for x in failed if x not in hob]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
    if nob == 0:
        failed = failed or [(None, ("coverage", "undecided", "engine", "no obligation was generated", None))]
    line = None
    if bf or failed:
        rep = dict(property=pid, tier=tier, seed=seed,
                   failed_obligations=[dict(group=o.name if o else "", obligation=i[0], status=i[1], backend=i[2], output=i[3], counterexample=i[4])
                                       for o, i in failed][:60],
                   failing_inputs=bf, how="python3 run.py --replay <this file>")
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        for o, i in failed[:12]:
            print("FAILED OBLIGATION %s :: %s (%s, %s) %s" % (o.name if o else "", i[0], i[1], i[2], str(i[3])[-600:]))
        for x in bf:
            print("FAILING INPUT case=%r seed=%d: %s" % (x["case"], x["seed"], x["error"]))
        line = "VIOLATION property=%s replay=%s" % (pid, rp) + ("" if bf else " no-failing-input-found")
        viol = [line]
    elif os.path.exists(rp):
        os.unlink(rp)
    stat = {}
    solver = {}
    execd = set()
    assumed = set()
    external, by_contract = set(), set()
    for o in obs:
        r = res[o.name]
        for k, (n, t) in r.get("stat", {}).items():
            a = stat.setdefault(k, [0, 0.0])
            a[0] += n
            a[1] += t
        for k, v in r.get("solver", {}).items():
            solver[k] = solver.get(k, 0) + v
        execd.update(r.get("executed", {}))
        assumed.update(r.get("assumed", ()))
        external.update(r.get("external", ()))
        by_contract.update(r.get("by_contract", ()))
    disch = {}
    for o, i in items:
        if i[1] == "proved" and not o.bounded:
            disch[i[2]] = disch.get(i[2], 0) + 1
    bounded = [dict(group=o.name, bound=o.bounded, passed=all(i[1] == "proved" for oo, i in items if oo is o)) for o in obs if o.bounded]
    base = ["pyvc: the verification condition generator (symbolic execution of the Python, Cython and C source), normal forms and loop rules",
            "z3 %s" % __import__("z3").get_version_string()]
    if external:
        base.append("library functions by contract (documented meaning, not proved): " + ", ".join(sorted(external)))
    if by_contract:
        assumed.add("at call sites replaced by their contract: " + ", ".join(sorted(by_contract)) +
                    " (functions of /repo: see the functions under contract of the properties in DESIGN.md; others: library contracts)")
    assumed.add("float arithmetic is treated as exact real arithmetic, int as unbounded integers")
    if getattr(mod, "NOTE", None):
        assumed.add(mod.NOTE)
    ev = dict(property=pid, tier=tier, seed=seed, level=info.get("level", "proof"),
              coverage=dict(obligations=nob, discharged=nob - len([1 for o, i in items if i[1] != "proved" and not o.bounded]),
                            checker_cmd="python3 run.py %s --tier %s" % (pid, tier),
                            trusted_base=list(base) + list(info.get("trusted", [])),
                            functions_under_contract=sorted({f for o in obs for f in o.funcs}),
                            functions_executed=sorted(x for x in execd if x.startswith("electrode")),
                            groups={o.name: [len(res[o.name]["items"]), round(res[o.name]["time"], 2)] for o in obs},
                            discharged_by_backend=disch, backend_calls_and_seconds={k: [v[0], round(v[1], 3)] for k, v in stat.items()},
                            solver=solver, bounded_standins=bounded,
                            battery=dict(cases_run=b["ran"], note=b.get("note", ""), truncated=bool(b.get("cut"))) if b else "none"),
              assumptions=sorted(assumed) + list(info.get("assumptions", [])) + list(getattr(H, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for x in out:
        print(x)
    print("%s: %d obligations, %d discharged, %d battery cases, %.1f s" % (
        pid, nob, ev["coverage"]["discharged"], sum(b["ran"].values()) if b else 0, time.time() - t0))
    if line:
        print(line)
        return 1
    return 0


def replay(path):
    rep = json.load(open(path))
    pid = rep["property"]
    if not rep["failing_inputs"]:
        print("no concrete input recorded; re-running the failed obligations")
        return check(pid, rep.get("tier", "quick"))
    import importlib
    mod = importlib.import_module("checks." + pid)
    bad = 0
    for x in rep["failing_inputs"]:
        b = battery(pid, ["replay", x["case"], str(x["seed"])], getattr(mod, "INFO", {}).get("build", False), 300)
        print(x["case"], x["seed"], b["fails"] or "passes now")
        bad |= bool(b["fails"])
    return int(bad)


if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            rc = replay(a[1])
        else:
            tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
            rc = check(a[0], tier)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = a[0] if a else "?"
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, failed_obligations=[dict(obligation="engine", output=traceback.format_exc())], failing_inputs=[]), open(rp, "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
