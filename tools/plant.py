"""Confirm planted changes and keep the confirmed ones in /verif/seeded.

usage: plant.py SPEC.py [ID ...] [--checks all|own|none] [--jobs N]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (python source, exit status non zero when the behaviour is broken),
needs, breaks.  A bug is kept when the repository's tests pass with it and the
demonstration passes without and fails with it; then the check of its property
is run against it and the outcome is printed.
"""
import json, os, shutil, subprocess, sys, runpy, time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
VERIF = "/verif"
SCRATCH = "/tmp/plantwork"
DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def one(bug, checks):
    bid = bug["id"]
    root = os.path.join(SCRATCH, bid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    tree = os.path.join(root, "repo")
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    out = {"id": bid}
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(tree, "high_order_layers_torch", f)
            s = open(p).read()
            if s.count(old) != bug.get("count", 1):
                out["error"] = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                return out
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tree, "diff"], capture_output=True, text=True).stdout
        demo_dir = os.path.join(root, "demo")
        os.makedirs(demo_dir)
        open(os.path.join(demo_dir, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(demo_dir, "demo.sh"), "w").write(DEMO_SH)
        rc0, o0 = run(["bash", os.path.join(demo_dir, "demo.sh")], "/repo", timeout=300)
        if rc0 != 0:
            out["error"] = "demo fails on the unchanged tree: " + o0[-600:]
            return out
        rc1, o1 = run(["bash", os.path.join(demo_dir, "demo.sh")], tree, timeout=300)
        if rc1 == 0:
            out["error"] = "demo passes with the patch"
            return out
        out["demo_says"] = o1.strip().splitlines()[-1][:160] if o1.strip() else ""
        kept = os.path.join(VERIF, "seeded", bid)
        prev = os.path.join(kept, "patch.diff")
        if not (os.path.exists(prev) and open(prev).read() == diff):
            rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed",
                         "--ignore=tests/test_examples.py", "tests", "-x"], tree,
                        {"PYTHONPATH": tree + ":/opt/vp/plugins", "OMP_NUM_THREADS": "2"})
            if rc != 0:
                out["error"] = "tests fail: " + " | ".join(l for l in o.splitlines() if l.startswith("FAILED"))[:400]
                return out
        os.makedirs(kept, exist_ok=True)
        open(prev, "w").write(diff)
        shutil.copy(os.path.join(demo_dir, "demo.py"), kept)
        shutil.copy(os.path.join(demo_dir, "demo.sh"), kept)
        os.chmod(os.path.join(kept, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(kept, "meta.json"), "w"), indent=1)
        pids = {"none": [], "own": [bug["property"]],
                "all": [f"C{i:02d}" for i in range(1, 26)]}[checks]
        out["caught"] = []
        for pid in pids:
            t = time.time()
            rc, o = run(["bash", os.path.join(VERIF, "check.sh"), pid], VERIF,
                        {"VERIF_REPO": tree, "VERIF_EVIDENCE": os.path.join(root, "ev"),
                         "VERIF_JOBS": "4", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + pid)]
            if rc == 1 and v:
                out["caught"].append(pid)
                if pid == bug["property"]:
                    out["how"] = " ".join(o.split())[:300]
            elif rc != 0:
                out.setdefault("odd", []).append((pid, rc, o[-300:]))
            if pid == bug["property"]:
                out["secs"] = round(time.time() - t)
        out["own"] = bug["property"] in out["caught"] if pids else None
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    args = sys.argv[1:]
    checks, jobs = "own", 3
    if "--checks" in args:
        i = args.index("--checks"); checks = args[i + 1]; del args[i:i + 2]
    if "--jobs" in args:
        i = args.index("--jobs"); jobs = int(args[i + 1]); del args[i:i + 2]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda b: one(b, checks), bugs):
            print(json.dumps(r), flush=True)


main()
