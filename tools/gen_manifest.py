"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/checks/{i.lower()}.py") and i not in NA:
        m = importlib.import_module("checks." + i.lower())
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --thorough",
                           technique="symbolic execution of the real Python code (numpy/netCDF4/cell_tree2d/scipy replaced by symbolic stand-ins), z3 decides every branch and assertion; counterexamples replayed on the unpatched code",
                           level="model_checking",
                           level_note="Bounds: " + m.BOUNDS + ". Outside: " + m.OUTSIDE + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "harness not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks import /repo's modules with redirected imports. Fixed defects and known findings: known_findings.json."),
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
