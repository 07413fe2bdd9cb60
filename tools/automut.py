"""automut.py FILE... [--props C01,C02] [--max N] [--seed S] [-j J]: one-site mutants of the sources; prints those no mapped check reports.
Works on copies of /repo/fastvpinns under /tmp; results appended to /tmp/automut.log."""
import ast, os, random, shutil, subprocess, sys, argparse, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/fastvpinns/"
MAP = [("FE/basis_2d", "C01,C02"), ("FE/quadratureformulas", "C03,C16"), ("FE/quad_", "C04,C05"), ("FE/FE2D_Cell", "C05,C16"), ("FE/fe2d_setup", "C16,C02,C03,C04"),
       ("FE/fespace2d", "C08,C17,C16,C07,C06"), ("Geometry", "C09,C10,C18"), ("data/", "C11,C17"), ("physics", "C12"), ("model/", "C14,C13"), ("utils/compute", "C15")]
OPS = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("print", "print_table", "plt.plot", "plt.scatter", "plt.figure", "tqdm") or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)):
            for d in ([n.returns] if isinstance(n, ast.FunctionDef) and n.returns else []) + ([n.annotation] if getattr(n, "annotation", None) else []):
                for m in ast.walk(d):
                    skip.add(id(m))
    out = []

    def emit(node, what):
        out.append((getattr(node, "lineno", 0), what, ast.unparse(tree)))
    stack = [(n, f, None) for n in ast.walk(tree) for f in n._fields]
    for node in list(ast.walk(tree)):
        if id(node) in skip:
            continue
        if isinstance(node, ast.BinOp):
            for o in OPS.get(type(node.op), []):
                old = node.op; node.op = o(); emit(node, f"{type(old).__name__}->{o.__name__}"); node.op = old
            if isinstance(node.op, (ast.Sub, ast.Div)):
                node.left, node.right = node.right, node.left; emit(node, "swap operands"); node.left, node.right = node.right, node.left
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                old = node.ops[0]; node.ops[0] = o(); emit(node, f"{type(old).__name__}->{o.__name__}"); node.ops[0] = old
        elif isinstance(node, ast.BoolOp):
            old = node.op; node.op = ast.Or() if isinstance(old, ast.And) else ast.And(); emit(node, "and<->or"); node.op = old
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            pass
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                new = [not v]
            elif isinstance(v, int):
                new = [v + 1, v - 1]
            elif isinstance(v, float):
                new = [v * 2 if v else 1.0]
            elif isinstance(v, str) and v:
                new = [v + "x"]
            else:
                new = []
            for x in new:
                node.value = x; emit(node, f"{v!r}->{x!r}"); node.value = v
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2:
                node.args[0], node.args[1] = node.args[1], node.args[0]; emit(node, "swap args"); node.args[0], node.args[1] = node.args[1], node.args[0]
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                f = node.func; b = f.value
                node.func = ast.Name("_same"); node.args = [b]
                s = "_same = lambda x: x\n"
                out.append((node.lineno, "drop copy", None)); node2 = ast.unparse(tree)
                out[-1] = (node.lineno, "drop copy", s + node2)
                node.func = f; node.args = []
            for k in list(node.keywords):
                if k.arg and k.arg not in ("desc", "unit", "label"):
                    i = node.keywords.index(k); node.keywords.remove(k); emit(node, f"drop {k.arg}="); node.keywords.insert(i, k)
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            sw = {"xi": "eta", "eta": "xi", "x": "y", "y": "x", "i": "j", "j": "i", "x_limits": "y_limits", "y_limits": "x_limits", "n_cells_x": "n_cells_y", "n_cells_y": "n_cells_x", "p1": "p2", "p2": "p1"}
            if node.id in sw and sw[node.id] in src:
                old = node.id; node.id = sw[old]; emit(node, f"{old}->{node.id}"); node.id = old
        elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            a = node.attr
            for s, t in (("x", "y"), ("y", "x"), ("xx", "yy"), ("grad_x", "grad_y"), ("xi", "eta"), ("eta", "xi"), ("min", "max"), ("max", "min"), ("0", "1"), ("1", "2"), ("2", "1"), ("_val", "_grad_x")):
                b = None
                if a.endswith(s):
                    b = a[:-len(s)] + t
                elif s in a and s in ("grad_x", "xx", "_val"):
                    b = a.replace(s, t)
                elif a.startswith("grad" + s) or "grad" + s + "_" in a:
                    b = a.replace("grad" + s, "grad" + t)
                if b and b != a and b in src:
                    node.attr = b; emit(node, f".{a}->.{b}"); node.attr = a
        if isinstance(getattr(node, "body", None), list):
            for st in list(node.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.If)) and id(st) not in skip and len(node.body) > 1 and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and id(st.value) in skip):
                    i = node.body.index(st); node.body.pop(i); emit(st, "drop statement " + ast.unparse(st).splitlines()[0][:60]); node.body.insert(i, st)
    seen, res = {ast.unparse(tree)}, []
    for l, w, s in out:
        if s not in seen:
            seen.add(s); res.append((l, w, s))
    return res


def run(job):
    n, f, line, what, src, props = job
    w = f"/tmp/am/{n}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(R, w + "/fastvpinns", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{w}/fastvpinns/{f}", "w").write(src)
    ev = w + "/v"
    os.makedirs(ev)
    for x in ("check.py", "checks.json", "conc", "contracts", "pyvc", "known_findings.json", "properties.jsonl", "MANIFEST.json", "tools"):
        os.symlink(f"{H}/{x}", f"{ev}/{x}") if os.path.isdir(f"{H}/{x}") else shutil.copy(f"{H}/{x}", ev)
    res = "SURVIVED"
    notes = []
    for p in props:
        try:
            r = subprocess.run(["python3", f"{ev}/check.py", p], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            o = r.stdout
        except subprocess.TimeoutExpired:
            notes.append(p + ":timeout"); continue
        if "VIOLATION" in o:
            res = "caught " + p + (" (proof only)" if "no-failing-input-found" in o else "")
            break
        if r.returncode:
            notes.append(f"{p}:rc{r.returncode}:" + o[-150:].replace("\n", " "))
        elif "not discharged" in o:
            notes.append(p + ":" + [l for l in o.splitlines() if "not discharged" in l][0].strip()[15:110])
    shutil.rmtree(w, ignore_errors=True)
    return f"{f}:{line} {what} -> {res} {' | '.join(notes)}"


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+"); ap.add_argument("--props"); ap.add_argument("--max", type=int, default=10 ** 6); ap.add_argument("--seed", type=int, default=0); ap.add_argument("-j", type=int, default=6); ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    jobs = []
    for f in a.files:
        ms = mutants(open(R + f).read())
        props = (a.props or next(p for k, p in MAP if k in f)).split(",")
        rnd = random.Random(a.seed); rnd.shuffle(ms)
        print(f, len(ms), "mutants")
        jobs += [(f"{f.replace('/', '_')}_{i}", f, l, w, s, props) for i, (l, w, s) in enumerate(ms[:a.max])]
    if a.count:
        sys.exit()
    with cf.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, jobs):
            open("/tmp/automut.log", "a").write(r + "\n")
            if "caught" not in r:
                print(r[:330], flush=True)
