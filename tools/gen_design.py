"""Rewrites the generated part of DESIGN.md (per-property design, findings, seeded bugs) from the harnesses' own bounds,
known_findings.json and seeded/*/meta.json (+ tools/catches.json, written by `tools/seedbug.py run`)."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
HOW = {
 "C01": "`Time(axis)` built from symbolic instants (only their order assumed); `index_of`, `interp_alpha`, `time_in_bounds`, `valid_time` run on a symbolic query. Oracle: the enclosing pair by comparison with the axis, weight × spacing = query − lower time. Binary search branches are decided by z3.",
 "C02": "Constructor and setters run on symbolic instants/offsets for every subset of shift options and every container kind (list, array, Time); oracle is `input + sum of shifts` element-wise; input snapshots compared afterwards; unordered/duplicate axes symbolic in the refusal jobs.",
 "C03": "One symbolic whole-minute offset m; the float hours are modelled as m/60·(1+δ), |δ| ≤ 2^-53; the formatted text's integer fields (tracked by the engine's string model) must denote m.",
 "C04": "`Variable.at` on triangular, curvilinear and rectangular grids with symbolic fields, symbolic axis and query; oracle calls the grid's own single-step interpolation for the two enclosing steps and combines them.",
 "C05": "Triangles with symbolic node coordinates (orientation forked explicitly), symbolic values and point; weights must be ≥0, sum 1, reproduce the point; meshes of 1–3 faces, batches, permuted vertices.",
 "C06": "Symbolic convex quadrilaterals (corner positions from a symbolic frame), symbolic point given by logical coordinates or by inequalities, every field/mask/padding; algebraic oracle (bilinear form), the square root of the logical-coordinate quadratic is modelled by its defining equation.",
 "C07": "Symbolic axes in all four directions, symbolic point and field; RegularGridInterpolator is modelled as its definition; oracle is the interval test and the bilinear form.",
 "C08": "Mask patterns symbolic (every pattern in one job), one symbolic point in convex cells; cell_tree2d stand-in answers by the exact point-in-polygon test of the polygons the code hands it, so wrong polygons or index mapping show.",
 "C09": "Symbolic triangles and point, both methods, histories of repeated queries; cell_tree2d as in C08.",
 "C10": "Histories of 2–3 symbolic queries on one object, compared with the same query on a fresh object with caching off; hashing is modelled injectively on contents (digests compare contents by forking), so collisions come only from what the code leaves out of its key.",
 "C11": "Symbolic level lists in both orders and symbolic query depths; every rule combination.",
 "C12": "ROMS and FVCOM coordinates with symbolic bathymetry, elevation, stretching values and query depths, on stand-in grids that return symbolic interpolated values; oracle is the documented formula.",
 "C13": "`Variable.at` with depth: symbolic fields, levels and depths in batches of 1–4; oracle combines the two levels' horizontally interpolated values.",
 "C14": "Connectivity itself is symbolic (vertex numbers of the faces), all builders run; oracle quantifies over all pairs of face sides.",
 "C15": "In-memory netCDF stand-in holds a mesh with symbolic connectivity in each storage convention; the loaded mesh must equal the canonical one.",
 "C16": "Mesh with symbolic coordinates/connectivity/values saved to and loaded from the in-memory netCDF stand-in; every subset of optional parts. The stand-in is validated by replaying every path's model with the real netCDF4.",
 "C17": "Every padding string/spacings via parameters, symbolic coordinates, angles and masks; parse, slices, save/load.",
 "C18": "Symbolic mask arrays (values and missingness) for each attribute convention.",
 "C19": "Every container form of the same symbolic points must give the same array/result; results must be aligned; wrongly shaped input must be refused.",
 "C20": "Segment permutations/orientations symbolic; verdat text written by the code is modelled with fixed-point tokens (`%.6f` = value within half a last decimal) in an in-memory file and read back by the code.",
 "C21": "Shapes symbolic (each dimension 0–9).",
 "C22": "Symbolic arrays; angle by symbolic (cos, sin) on the unit circle; vector variables on real grids; units given, taken from components or read from files.",
 "C23": "In-memory netCDF files with symbolic time values; the reference's clock reading, unit and offset are parameters over many spellings; oracle adds value × unit to the clock reading.",
 "C24": "In-memory netCDF files with symbolic coordinates and connectivity; naming schemes, topology mappings, attribute spellings and declaration orders are parameters; oracle is the content the file was built from.",
 "C25": "In-memory netCDF files with symbolic terms, bathymetry and free surface; naming schemes, orders, split files and caller's keywords are parameters; oracle is the content the files were built from, four-cell means computed independently.",
 "C26": "In-memory netCDF files (also series of files) with symbolic data; ways to open, types, locations and dimensions are parameters; oracle is the content the files were built from, and for values at points the same data in memory.",
 "C27": "Sequences of operations are job parameters, indices are symbolic choices, data are symbolic; oracle is plain numpy indexing of the expected data.",
 "C29": "plot_ugrid, plot_sgrid and the FVCOM inspector run on grids (and FVCOM files) with symbolic coordinates and symbolic click positions, drawing on recording axes; each recorded triangle, line, label, row and selected face must be the one the grid states.",
 "C30": "Symbolic point and corners; the crossing rule of the code against the parity of the triangles a fan over the polygon makes, whose orientation signs are decided by the solver.",
 "C28": "Two objects with independent symbolic content; == must be True on exactly the paths where the solver shows the contents equal.",
}
out = ["## Properties: how each is decided, within which bounds", ""]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    try:
        m = importlib.import_module("checks." + i.lower())
    except ImportError:
        out += ["not built", ""]
        continue
    out += [f"*How*: {HOW.get(i, '')}", f"*Why beyond tests*: {p['why_tests_cant']}", f"*Bounds (quick)*: {m.BOUNDS}.", f"*Outside*: {m.OUTSIDE}.",
            "*Assumptions*: " + "; ".join(getattr(m, "ASSUMPTIONS", []) or ["none beyond the method's"]) + ".", ""]
kf = json.load(open(H + "/known_findings.json"))
out += ["## Genuine defects found", "", "All reproduced on the real code and repaired in /repo (one commit each); `known_findings.json` has the same list.", ""]
out += ["* " + k["what"] for k in kf if k["status"] == "fixed"]
o = [k for k in kf if k["status"] != "fixed"]
out += ["", "Known findings not repaired:", ""] + (["* " + f"property={k['property']} {k['what']}" for k in o] or ["* none"])
cf = H + "/tools/catches.json"
catches = json.load(open(cf)) if os.path.exists(cf) else {}
out += ["", "## Seeded bugs and what catches them", "", "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); b = os.path.basename(os.path.dirname(d))
    out.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {', '.join(catches.get(b, [])) or m['property'] + '?'} |".replace("\n", " "))
head = open(H + "/DESIGN.md").read().split("<!-- generated below -->")[0].rstrip()
open(H + "/DESIGN.md", "w").write(head + "\n\n<!-- generated below -->\n\n" + "\n".join(out) + "\n")
