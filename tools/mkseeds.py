#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds_*.py and verifies each in a scratch copy of /repo.
mkseeds.py [id ...] [--check]   (--check: also run the property's quick check against the changed copy)"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
PRELUDE = open(os.path.join(HERE, "seed_prelude.py")).read()
DEMO_SH = '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
PYT = "/opt/venv/bin/python"


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds_*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["SEEDS"]
    return out


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=400, **k)


def one(s, check, tier_env):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    msgs = []
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(PRELUDE + "\n" + s["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        r = run(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode:
            msgs.append("DEMO FAILS UNCHANGED: " + (r.stdout + r.stderr)[-600:])
        for file, old, new in s["edits"]:
            p = os.path.join(repo, "occuprob", file)
            t = open(p).read()
            if t.count(old) != 1:
                return ["EDIT does not match once (%d): %s" % (t.count(old), old[:60])]
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        r = run([PYT, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "occuprob/tests"], repo,
                env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg"))
        if r.returncode:
            msgs.append("TESTS FAIL: " + r.stdout[-500:])
        r = run(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode == 0:
            msgs.append("DEMO PASSES WITH CHANGE: " + (r.stdout + r.stderr)[-600:])
        elif "Error" in r.stderr and "AssertionError" not in r.stderr:
            msgs.append("(demo: %s)" % r.stderr.strip().split("\n")[-1][:200])
        if check:
            for prop in [s["prop"]] + ([] if check == "own" else []):
                env = dict(os.environ, OCCUSIM_REPO=repo, OCCUSIM_OUT="/tmp/out", OCCUSIM_EVIDENCE="/tmp/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                r = run([sys.executable, os.path.join(V, "sim", "run.py"), prop], V, env=env)
                hit = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
                what = [l for l in r.stdout.split("\n") if l and not l.startswith(("VIOLATION", prop, "case", "minimised"))]
                last = [l for l in r.stdout.split("\n") if l.startswith(prop + ":")]
                msgs.append("%s %s: %s | %s" % (prop, "CAUGHT" if hit and r.returncode == 1 else "MISSED(%d)" % r.returncode,
                                                (what or [r.stdout[-300:]])[-1][:160], (last or [""])[0]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return msgs


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [s for s in load() if not ids or any(s["id"].startswith(i) for i in ids)]
    from concurrent.futures import ThreadPoolExecutor
    check = "--check" in sys.argv
    with ThreadPoolExecutor(1 if check else 6) as pool:
        for s, msgs in zip(todo, pool.map(lambda s: one(s, check, None), todo)):
            print(s["id"], *(msgs or ["ok"]), sep="\n   ", flush=True)
