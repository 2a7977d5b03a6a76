"""Builds /verif/seeded/<id> from a spec file, after confirming it in a scratch copy; or runs the checks over the seeded bugs.

   seedbug.py make SPEC.py [id ...]      SPEC.py: BUGS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks)]
   seedbug.py run [id ...]               apply each in a scratch copy, run its property's check there, print caught or missed
   seedbug.py cross [id ...]             the same, with every check
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def copy(id):
    d = f"/tmp/wt/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/wt", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -- . ", cwd=d)
    return d


def stable(d):
    rep = d + ".xml"
    env = dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONHASHSEED="0")
    sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --basetemp={d}.tmp -o junit_family=xunit2 "
       f"--junitxml={rep} --ignore=gridded/tests/test_projected_ugrid.py gridded", cwd=d, env=env)
    out = d + ".json"
    sh(f"/usr/bin/python3 /opt/vp/results.py {out} junit:{rep}")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open(out))
    for p in (rep, out):
        os.remove(p)
    shutil.rmtree(d + ".tmp", ignore_errors=True)
    return [t for t in b["stable"] if t not in o["passed"]]


def make(b):
    d = copy(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return b["id"], f"old text not found in {f}: {old[:50]!r}"
            if s.count(old) > 1 and not b.get("all"):
                return b["id"], f"old text found {s.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        tmp = d + ".demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(b["demo"])
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# cwd: /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        bad = sh(f"bash {tmp}/demo.sh", cwd=d, env=dict(PYTHONPATH=d))
        good = sh(f"bash {tmp}/demo.sh", cwd="/repo", env=dict(PYTHONPATH="/repo"))
        if good.returncode:
            shutil.rmtree(tmp)
            return b["id"], "demo fails on the unchanged tree: " + (good.stdout + good.stderr)[-600:]
        if not bad.returncode:
            shutil.rmtree(tmp)
            return b["id"], "demo passes with the change"
        t = stable(d)
        if t:
            shutil.rmtree(tmp)
            return b["id"], f"stable tests fail: {t[:4]}"
        dst = os.path.join(SEED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(tmp, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        return b["id"], "ok; demo says: " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(id, props=None):
    meta = json.load(open(f"{SEED}/{id}/meta.json"))
    d = copy(id + ".run")
    v = d + ".verif"
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(V, v, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__", "evidence"))
    os.makedirs(v + "/evidence", exist_ok=True)
    try:
        r = sh(f"git apply {SEED}/{id}/patch.diff", cwd=d)
        if r.returncode:
            return id, meta["property"], "patch does not apply " + r.stderr[:200]
        res = []
        for p in props or [meta["property"]]:
            r = sh(f"./check {p}", cwd=v, env=dict(GRIDDED_SRC=d, VERIF_SEED="1", VERIF_TIER="quick"), timeout=1500)
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                line = [x for x in r.stdout.splitlines() if x.startswith("  ")]
                res.append(f"{p} CAUGHT {line[0].strip()[:110] if line else ''}")
            elif props is None or r.returncode:
                res.append(f"{p} MISSED rc={r.returncode} " + (r.stdout + r.stderr).strip()[-220:].replace("\n", " | "))
        return id, meta["property"], " ;; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


if __name__ == "__main__":
    mode = sys.argv[1]
    if mode == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        bugs = [b for b in ns["BUGS"] if len(sys.argv) < 4 or b["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, bugs):
                print(*r, flush=True)
                if mode != "make":
                    cf = V + "/tools/catches.json"
                    c = json.load(open(cf)) if os.path.exists(cf) else {}
                    got = {x.split()[0] for x in r[2].split(" ;; ") if " CAUGHT" in x}
                    c[r[0]] = sorted(got | set(c.get(r[0], []))) if mode == "run" and got else sorted(got)
                    json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        ids = [i for i in ids if os.path.isdir(f"{SEED}/{i}")]
        props = None
        if mode == "cross":
            props = [c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda i: run(i, props), ids):
                print(*r, flush=True)
                if mode != "make":
                    cf = V + "/tools/catches.json"
                    c = json.load(open(cf)) if os.path.exists(cf) else {}
                    got = {x.split()[0] for x in r[2].split(" ;; ") if " CAUGHT" in x}
                    c[r[0]] = sorted(got | set(c.get(r[0], []))) if mode == "run" and got else sorted(got)
                    json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
