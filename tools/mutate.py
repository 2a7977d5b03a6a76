"""Systematic mutation of the code under test, to find what the checks miss.

   mutate.py gen  OUT.json FILE...         list the mutants of the given files (relative to /repo)
   mutate.py test IN.json OUT.json         keep those that pass the stable tests
   mutate.py check IN.json OUT.json MAPS   run the jobs that execute the mutated line (MAPS: directory with CXX.json written with VERIF_JOBMAP)

A tool for strengthening the checks, not part of any check.  Everything happens in scratch copies under /tmp/mut.
"""
import ast, glob, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")  # where the mutants were made from
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "/", ast.Pow: "*"}


def seg(src, n):
    return ast.get_source_segment(src, n)


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.off = [0]
        for line in src.encode().splitlines(keepends=True):
            self.off.append(self.off[-1] + len(line))

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, op):
        a, b = self.span(n)
        if self.fn:
            self.out.append(dict(a=a, b=b, line=n.lineno, fn=".".join(self.fn), new=new, op=op, old=self.src.encode()[a:b].decode()))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        if n.name not in ("info", "__str__", "__repr__", "wrapper", "_mod", "getvars"):
            for s in n.body:
                self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = seg(self.src, n.left), seg(self.src, n.comparators[0])
            self.add(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                self.add(n, f"({l} {'>' if isinstance(n.ops[0], (ast.Lt, ast.LtE)) else '<'} {r})", "cmpflip")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = seg(self.src, n.left), seg(self.src, n.right)
            self.add(n, f"({l} {BIN[type(n.op)]} {r})", "bin")
            if type(n.op) in (ast.Add, ast.Sub, ast.Mult):
                self.add(n, f"({l})", "dropright")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        parts = [f"({seg(self.src, v)})" for v in n.values]
        self.add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(parts) + ")", "bool")
        for i in range(len(parts)):
            self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(parts[:i] + parts[i + 1:]) + ")", "booldrop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(n, f"({seg(self.src, n.operand)})", "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const")
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            self.add(n, str(v + 1), "const")
            if v not in (0,):
                self.add(n, f"({v - 1})", "const")
            else:
                self.add(n, "(-1)", "const")
        elif isinstance(v, str) and 0 < len(v) < 40 and self.fn:
            self.add(n, repr(v + "x"), "str")

    def visit_If(self, n):
        t = seg(self.src, n.test)
        self.add(n.test, f"(not ({t}))", "ifnot")
        self.add(n.test, "False", "iffalse")
        self.add(n.test, "True", "iftrue")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({seg(self.src, n.body)})", "ifexp")
        self.add(n, f"({seg(self.src, n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            if k.arg:
                a = self.src.encode()
                parts = [seg(self.src, x) for x in n.args] + [(f"{q.arg}=" if q.arg else "**") + seg(self.src, q.value) for j, q in enumerate(n.keywords) if j != i]
                self.add(n, f"{seg(self.src, n.func)}({', '.join(parts)})", "dropkw")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "filled", "reshape", "ravel", "squeeze", "T", "astype"):
            self.add(n, f"{seg(self.src, n.func.value)}", "dropcall")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def stmt(self, n):
        self.add(n, "pass", "dropstmt")

    def visit_Assign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and seg(self.src, n.value.func).split(".")[0] in ("warnings", "log", "print", "logging"):
            return
        self.stmt(n)
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add(n, "return None", "retnone")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "noraise")

    def visit_Continue(self, n):
        self.add(n, "break", "contbreak")

    def visit_Break(self, n):
        self.add(n, "continue", "contbreak")


NAMES = {"lon": "lat", "lat": "lon", "node_lon": "node_lat", "node_lat": "node_lon", "edge1": "edge2", "edge2": "edge1", "node": "center", "center": "node", "face": "edge", "edge": "face", "faces": "edges", "edges": "faces", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "logical_or": "logical_and", "logical_and": "logical_or", "sum": "mean", "mean": "sum", "nodes": "faces", "sin": "cos", "cos": "sin", "left": "right", "right": "left", "nonzero": "flatnonzero", "vstack": "hstack", "hstack": "vstack", "column_stack": "row_stack", "min_time": "max_time", "max_time": "min_time", "low": "high", "high": "low", "above": "below", "below": "above", "update": "setdefault", "append": "insert0", "sort": "pass", "isfinite": "isnan", "empty": "zeros", "zeros": "ones", "ones": "zeros", "greater": "less", "C": "F", "F": "C", "startswith": "endswith", "endswith": "startswith", "lower": "upper", "strip": "rstrip", "rows": "columns", "x": "y", "y": "x", "bottom": "surface", "surface": "bottom"}


class Gen3(Gen):
    """mistakes of other kinds: mixed-up names, arguments, axes, orders of statements"""

    def swapname(self, w):
        if w in NAMES:
            return NAMES[w]
        for a, b in (("lon", "lat"), ("edge1", "edge2"), ("node", "center"), ("face", "edge"), ("boundary", "face"), ("min", "max"), ("row", "col"), ("x", "y"), ("surface", "bottom"), ("above", "below"), ("u", "v")):
            parts = w.split("_")
            for p, q in ((a, b), (b, a), (a + "s", b + "s"), (b + "s", a + "s")):
                if p in parts:
                    return "_".join(q if z == p else z for z in parts)
        return None

    def visit_Compare(self, n):
        self.generic_visit(n)

    visit_BinOp = visit_BoolOp = visit_UnaryOp = visit_IfExp = visit_Compare

    def body(self, b):
        for s, t in zip(b, b[1:]):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(t, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if names - {"self", "np", "cls"}:
                    a, e = self.span(s)[0], self.span(t)[1]
                    e1, b1 = self.span(s)[1], self.span(t)[0]
                    z = self.src.encode()
                    self.out.append(dict(a=a, b=e, line=s.lineno, fn=".".join(self.fn), new=(z[b1:e] + z[e1:b1] + z[a:e1]).decode(), op="swapstmt", old=z[a:e].decode()))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        if n.name not in ("info", "__str__", "__repr__", "wrapper", "_mod", "getvars"):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                if isinstance(d, ast.Constant):
                    v = d.value
                    self.add(d, "0" if v is None else str(not v) if isinstance(v, bool) else repr(v + "x") if isinstance(v, str) else repr(v + 1) if isinstance(v, (int, float)) else "None", "default")
            self.body(n.body)
            for s in n.body:
                self.visit(s)
        self.fn.pop()

    def visit_If(self, n):
        self.body(n.body)
        self.body(n.orelse)
        if n.orelse:
            self.generic_visit(n)
        else:
            self.generic_visit(n)

    def visit_For(self, n):
        self.body(n.body)
        if isinstance(n.iter, ast.Call):
            self.add(n.iter, f"list({seg(self.src, n.iter)})[1:]", "skipfirst")
            self.add(n.iter, f"list({seg(self.src, n.iter)})[:-1]", "skiplast")
        else:
            self.add(n.iter, f"list({seg(self.src, n.iter)})[:-1]", "skiplast")
            self.add(n.iter, f"list({seg(self.src, n.iter)})[::-1]", "reverse")
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = seg(self.src, n.func)
        args = [seg(self.src, x) for x in n.args]
        kws = [(f"{q.arg}=" if q.arg else "**") + seg(self.src, q.value) for q in n.keywords]
        if len(args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not f.startswith(("warnings", "isinstance", "getattr", "hasattr", "setattr", "log", "print")):
            self.add(n, f"{f}({', '.join([args[1], args[0]] + args[2:] + kws)})", "swapargs")
        if isinstance(n.func, ast.Attribute) and n.func.attr == "append" and len(args) == 1:
            self.add(n, f"{seg(self.src, n.func.value)}.insert(0, {args[0]})", "insert0")
        if f.startswith("np.ma."):
            self.add(n, f"np.{f[6:]}({', '.join(args + kws)})", "noma")
        if f in ("sorted", "abs", "np.abs", "list", "tuple", "set", "np.unique", "np.array", "np.asarray", "np.asanyarray", "np.ascontiguousarray", "float", "int", "str", "np.ma.filled", "np.transpose", "reversed", "np.squeeze", "np.atleast_1d", "np.atleast_2d", "np.fabs", "np.round", "enumerate") and args and f != "enumerate":
            self.add(n, f"({args[0]})", "unwrap")
        for i, q in enumerate(n.keywords):
            if q.arg and isinstance(q.value, ast.Constant) and q.value.value is None:
                continue
            if q.arg == "axis" and isinstance(q.value, ast.Constant):
                self.add(q.value, str({0: 1, 1: 0, -1: 0}.get(q.value.value, 0)), "axis")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "upper", "rstrip", "lstrip", "tolist", "flatten", "transpose", "sort", "encode", "decode", "split", "copy", "items"):
            if n.func.attr not in ("split", "items"):
                self.add(n, seg(self.src, n.func.value), "dropcall3")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        w = self.swapname(n.attr)
        if w and w != "pass" and w != "insert0":
            self.add(n, f"{seg(self.src, n.value)}.{w}", "attrname")
        if n.attr == "T":
            self.add(n, seg(self.src, n.value), "dropT")
        self.generic_visit(n)

    def visit_Name(self, n):
        w = self.swapname(n.id)
        if w and isinstance(n.ctx, ast.Load):
            self.add(n, w, "name")

    def visit_Constant(self, n):
        if isinstance(n.value, str) and 0 < len(n.value) < 40:
            w = self.swapname(n.value)
            if w:
                self.add(n, repr(w), "strname")

    def visit_Subscript(self, n):
        v, s = seg(self.src, n.value), n.slice
        if isinstance(n.ctx, ast.Load):
            if isinstance(s, ast.Constant) and isinstance(s.value, int):
                self.add(n, f"{v}[{ {0: 1, 1: 0, -1: 0}.get(s.value, s.value - 1) }]", "index")
            if isinstance(s, ast.UnaryOp) and seg(self.src, s) == "-1":
                self.add(n, f"{v}[0]", "index")
            parts = s.elts if isinstance(s, ast.Tuple) else [s]
            for i, p in enumerate(parts):
                if isinstance(p, ast.Slice):
                    new = []
                    if p.lower is not None:
                        new.append(":" + (seg(self.src, p.upper) if p.upper else "") + (":" + seg(self.src, p.step) if p.step else ""))
                    if p.upper is not None:
                        new.append((seg(self.src, p.lower) if p.lower else "") + ":" + (":" + seg(self.src, p.step) if p.step else ""))
                    if p.step is not None:
                        new.append((seg(self.src, p.lower) if p.lower else "") + ":" + (seg(self.src, p.upper) if p.upper else ""))
                    for w in new:
                        self.add(n, f"{v}[{', '.join(w if j == i else seg(self.src, q) for j, q in enumerate(parts))}]", "slice")
            if len(parts) == 2:
                self.add(n, f"{v}[{seg(self.src, parts[1])}, {seg(self.src, parts[0])}]", "swapidx")
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) >= 2 and len({seg(self.src, e) for e in n.elts}) > 1:
            e = [seg(self.src, x) for x in n.elts]
            self.add(n, "(" + ", ".join([e[1], e[0]] + e[2:]) + ")", "swaptuple")
            self.add(n, "(" + ", ".join(e[:-1]) + ",)", "shorttuple")
        self.generic_visit(n)

    def visit_List(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            e = [seg(self.src, x) for x in n.elts]
            self.add(n, "[" + ", ".join([e[1], e[0]] + e[2:]) + "]", "swaplist")
            self.add(n, "[" + ", ".join(e[:-1]) + "]", "shortlist")
        self.generic_visit(n)

    def visit_Try(self, n):
        self.body(n.body)
        self.generic_visit(n)

    def visit_With(self, n):
        self.body(n.body)
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.generic_visit(n)

    visit_AugAssign = visit_Expr = visit_Return = visit_Assign

    def visit_Raise(self, n):
        pass

    def visit_Continue(self, n):
        pass

    visit_Break = visit_Continue


def gen(files, Gen=Gen):
    out = []
    for f in files:
        src = open(os.path.join(BASE, f)).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        for m in g.out:
            m["file"] = f
            s = src.encode()
            new = (s[:m["a"]] + m["new"].encode() + s[m["b"]:]).decode()
            try:
                t = ast.parse(new)
            except SyntaxError:
                continue
            if ast.dump(t) == ast.dump(ast.parse(src)):
                continue
            out.append(m)
    return out


def apply(m, d):
    s = open(os.path.join(BASE, m["file"]), "rb").read()
    open(os.path.join(d, m["file"]), "wb").write(s[:m["a"]] + m["new"].encode() + s[m["b"]:])


def undo(m, d):
    shutil.copy(os.path.join(BASE, m["file"]), os.path.join(d, m["file"]))


def slots(n, tag):
    q = Queue()
    for i in range(n):
        d = f"/tmp/mut/{tag}{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", BASE, d], check=True)
        q.put(d)
    return q


def deselect():
    """tests that are not stable"""
    p = "/tmp/mut/deselect.json"
    return json.load(open(p)) if os.path.exists(p) else []


def kill(cmd, cwd, env, limit):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out = p.communicate(timeout=limit)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


def test(ms, n=8):
    q = slots(n, "t")
    ds = " ".join(f"--deselect '{x}'" for x in deselect())

    def one(m):
        d = q.get()
        try:
            apply(m, d)
            env = dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            rc, out = kill(f"{PY} -m pytest -x -q -p no:cacheprovider --timeout=60 --basetemp={d}.tmp --ignore=gridded/tests/test_projected_ugrid.py {ds} gridded", d, env, 120)
            return rc == 0
        finally:
            undo(m, d)
            q.put(d)

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, ms))
    for i in range(n):
        shutil.rmtree(f"/tmp/mut/t{i}", ignore_errors=True)
        shutil.rmtree(f"/tmp/mut/t{i}.tmp", ignore_errors=True)
    return [m for m, ok in zip(ms, res) if ok]


def check(ms, maps, out, n=7, phases=((8, 25), (1000, 50))):
    v = "/tmp/mut/verif"
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(V, v, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__", "evidence"))
    os.makedirs(v + "/evidence", exist_ok=True)
    q = slots(n, "c")
    table = {}  # line -> [(prop, job, wall)]
    for f in sorted(glob.glob(maps + "/C*.json")):
        p = os.path.basename(f)[:-5]
        for j in json.load(open(f)):
            for l in j["lines"]:
                table.setdefault(l, []).append((p, j["job"], j["wall"]))

    def one(m):
        d = q.get()
        try:
            apply(m, d)
            jobs = table.get(f"{m['file']}:{m['line']}", [])
            if not jobs:
                return dict(m, status="uncovered")
            rng = random.Random(5)
            done = set()
            t0 = time.time()
            for wmax, total in phases:
                left = [j for j in jobs if j[:2] not in done and j[2] <= wmax]
                rng.shuffle(left)
                fns, pick, cost = {}, {}, 0
                # spread over the harness functions
                left.sort(key=lambda j: fns.setdefault(j[0] + j[1].split("(")[0], len(fns)))
                groups = {}
                for j in left:
                    groups.setdefault(j[0] + j[1].split("(")[0], []).append(j)
                order = []
                while groups:
                    for g in list(groups):
                        order.append(groups[g].pop())
                        if not groups[g]:
                            del groups[g]
                for j in order:
                    if cost + j[2] > total:
                        continue
                    cost += j[2]
                    pick.setdefault(j[0], []).append(j[1])
                    done.add(j[:2])
                for p, names in sorted(pick.items(), key=lambda x: len(x[1])):
                    jf = d + ".jobs"
                    json.dump(names, open(jf, "w"))
                    # a copy of the framework of its own: evidence files are written
                    rc, o = kill(f"./check {p}", v, dict(GRIDDED_SRC=d, VERIF_JOBS=jf, VERIF_FAILFAST="1", VERIF_NPROC="1", VERIF_BUDGET="300", VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="1"), 400)
                    if rc == 1 and "VIOLATION" in o:
                        return dict(m, status="caught", by=p, how=[x for x in o.splitlines() if x.startswith("  ")][:1], t=time.time() - t0)
                    if rc != 0:
                        m.setdefault("odd", []).append([p, rc, o[-300:]])
            return dict(m, status="missed", jobs=len(jobs), ran=len(done), props=sorted({j[0] for j in jobs}), t=time.time() - t0)
        finally:
            undo(m, d)
            q.put(d)

    res = []
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, ms):
            res.append(r)
            if r["status"] != "caught":
                print(r["status"], f"{r['file']}:{r['line']} {r['fn']} [{r['op']}] {r['old'][:70]!r} -> {r['new'][:70]!r}", r.get("props"), f"{r.get('ran')}/{r.get('jobs')}", round(r.get("t", 0)), r.get("odd", ""), flush=True)
            json.dump(res, open(out, "w"))
    for i in range(n):
        shutil.rmtree(f"/tmp/mut/c{i}", ignore_errors=True)
    c = [r["status"] for r in res]
    print({s: c.count(s) for s in set(c)})


if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    if sys.argv[1] in ("gen", "gen3"):
        ms = gen(sys.argv[3:], Gen if sys.argv[1] == "gen" else Gen3)
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    elif sys.argv[1] == "test":
        ms = json.load(open(sys.argv[2]))
        r = test(ms, int(os.environ.get("N", 8)))
        json.dump(r, open(sys.argv[3], "w"))
        print(len(r), "of", len(ms), "pass the stable tests")
    else:
        check(json.load(open(sys.argv[2])), sys.argv[4], sys.argv[3])
