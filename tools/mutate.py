"""Mutation testing: small syntactic changes of kcorrect against the checks.

mutate.py OUT.jsonl [--n N] [--seed S] [--jobs J] [--files fitter,kcorrect,...] [--scales 0.03,0.2]
Every mutant (one operator, constant, condition or statement of one function) is run, in
a scratch copy of the sources, through the checks that concern its file at the given
scales until one reports it; survivors are listed in OUT.jsonl with their diff."""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = "/repo/src/kcorrect"
WORK = "/tmp/x/mut"
CHECKS = dict(
    fitter="C07 C08 C10 C33 C28 C09 C19 C27 C11 C34 C37 C15 C21 C36",
    kcorrect="C12 C14 C16 C18 C17 C28 C21 C24 C20 C10 C13 C15 C36 C22 C23 C11 C32 C33 C31 C19 C35",
    response="C02 C01 C03 C04 C06 C28 C32 C37 C36",
    template="C05 C06 C30 C36 C32 C07 C18 C27 C31 C28",
    utils="C22 C23 C25 C26 C29 C28 C03")
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
        ast.And: ast.Or, ast.Or: ast.And, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Pow: ast.Mult}


def points(tree):
    """(description, change of the node) of every mutant."""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for n in ast.walk(fn):
            at = getattr(n, "lineno", 0)
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                out.append((at, "operator", n, lambda n: setattr(n, "op", SWAP[type(n.op)]())))
            elif isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
                out.append((at, "comparison", n, lambda n: n.ops.__setitem__(0, SWAP[type(n.ops[0])]())))
            elif isinstance(n, ast.BoolOp):
                out.append((at, "boolean", n, lambda n: setattr(n, "op", SWAP[type(n.op)]())))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((at, "sign", n, lambda n: setattr(n, "op", ast.UAdd())))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((at, "constant", n, lambda n: setattr(n, "value", not n.value)))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                out.append((at, "constant", n, lambda n: setattr(n, "value", n.value + 1 if isinstance(n.value, int) else n.value * 1.01 if n.value else .01)))
            elif isinstance(n, ast.If):
                out.append((at, "if True", n, lambda n: setattr(n, "test", ast.Constant(True))))
                out.append((at, "if False", n, lambda n: setattr(n, "test", ast.Constant(False))))
            for body in [getattr(n, b, None) for b in ("body", "orelse", "finalbody")]:
                if not isinstance(body, list):
                    continue
                for i, s in enumerate(body):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise)) or \
                            isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
                        out.append((s.lineno, "statement removed", (n, body, i), lambda x: x[1].__setitem__(x[2], ast.Pass())))
    return out


def mutants(name):
    text = open("%s/%s.py" % (SRC, name)).read()
    k, seen = 0, set()
    base = ast.unparse(ast.parse(text)).splitlines()
    while True:
        tree = ast.parse(text)
        pts = points(tree)
        if k >= len(pts):
            return
        at, kind, node, change = pts[k]
        k += 1
        change(node)
        new = ast.unparse(ast.fix_missing_locations(tree))
        if new in seen or new.splitlines() == base:
            continue
        seen.add(new)
        import difflib
        d = [x for x in difflib.unified_diff(base, new.splitlines(), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
        yield dict(file=name, line=at, kind=kind, diff=d), new


def run(job):
    i, m, new, scales = job
    wt = "%s/m%s" % (WORK, i)
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt + "/src/kcorrect")
    try:
        for x in os.listdir(SRC):
            if x == "data":
                os.symlink(SRC + "/data", wt + "/src/kcorrect/data")
            elif x.endswith(".py"):
                shutil.copy(SRC + "/" + x, wt + "/src/kcorrect")
        open("%s/src/kcorrect/%s.py" % (wt, m["file"]), "w").write(new)
        env = dict(os.environ, KCV_REPO_SRC=wt + "/src", KCV_EVIDENCE=wt + "/ev", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", KCV_SHRINK="0.1")
        for s in scales:
            for c in CHECKS[m["file"]].split():
                try:
                    p = subprocess.run(["/opt/venv/bin/python", VERIF + "/check.py", c, "--jobs", "1", "--scale", s], cwd=VERIF, env=env,
                                       capture_output=True, text=True, timeout=300)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "time"
                if rc != 0:
                    m["by"] = [c, s, rc]
                    return m
        m["by"] = None
        return m
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {k: a[a.index(k) + 1] for k in ("--n", "--seed", "--jobs", "--files", "--scales") if k in a}
    ms = [x for f in opt.get("--files", ",".join(CHECKS)).split(",") for x in mutants(f)]
    print(len(ms), "mutants")
    random.Random(int(opt.get("--seed", "1"))).shuffle(ms)
    ms = ms[:int(opt.get("--n", len(ms)))]
    scales = opt.get("--scales", "0.03,0.2").split(",")
    os.makedirs(WORK, exist_ok=True)
    with ThreadPoolExecutor(int(opt.get("--jobs", "7"))) as ex, open(a[0], "w") as out:
        for m in ex.map(run, [("%d_%d" % (os.getpid(), i), m, new, scales) for i, (m, new) in enumerate(ms)]):
            out.write(json.dumps(m) + "\n")
            out.flush()
