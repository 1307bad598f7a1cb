"""Runs the check of each planted bug's property on the bug, and rewrites the table of DESIGN.md.

matrix.py [--seed N] [--jobs N] [--table] [ID...]   (--table: only rewrite the table from the last results)
Results are kept in tools/plant/matrix.json: {id: {seed: [sub-checks that report it]}}."""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
RES = os.path.join(HERE, "matrix.json")
WORK = "/tmp/x/matrix"


def one(bug, seed):
    wt = "%s/%s" % (WORK, bug)
    meta = json.load(open("%s/seeded/%s/meta.json" % (VERIF, bug)))
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    try:
        shutil.copytree("/repo/src", wt + "/src", symlinks=True)
        p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + wt, "%s/seeded/%s/patch.diff" % (VERIF, bug)],
                           cwd="/", capture_output=True, text=True)
        if p.returncode:
            return bug, ["DOES NOT APPLY " + p.stderr[:200]]
        env = dict(os.environ, KCV_REPO_SRC=wt + "/src", VERIF_SEED=str(seed), KCV_EVIDENCE=wt + "/ev", MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", KCV_SHRINK="3")
        p = subprocess.run(["/opt/venv/bin/python", "check.py", meta["property"]], cwd=VERIF, env=env, capture_output=True,
                           text=True, timeout=1800)
        subs = sorted(set(re.findall(r"VIOLATION property=\w+ replay=\S*-(\w+)\.json", p.stdout)))
        return bug, subs if p.returncode == 1 else ["rc=%d" % p.returncode] if p.returncode else []
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def table():
    res = json.load(open(RES))
    rows = ["| bug | property | needs | reported by (number of seeds) |", "|---|---|---|---|"]
    for d in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
        b = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        r = res.get(b, {})
        subs = {}
        for s in r.values():
            for x in s:
                subs[x] = subs.get(x, 0) + 1
        miss = sum(not s for s in r.values())
        rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], ", ".join(
            "%s (%d)" % x for x in sorted(subs.items())) + ("; not at %d of %d seeds" % (miss, len(r)) if miss else "")))
    p = VERIF + "/DESIGN.md"
    s = open(p).read()
    open(p, "w").write(s[:s.index("<!-- table -->")] + "<!-- table -->\n\n" + "\n".join(rows) + "\n")


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {k: a[a.index(k) + 1] for k in ("--seed", "--jobs") if k in a}
    ids = [x for i, x in enumerate(a) if not x.startswith("--") and (i == 0 or a[i - 1] not in ("--seed", "--jobs"))]
    if "--table" not in a:
        ids = ids or sorted(os.path.basename(os.path.dirname(d)) for d in glob.glob(VERIF + "/seeded/*/meta.json"))
        seed = opt.get("--seed", "1")
        with ThreadPoolExecutor(int(opt.get("--jobs", "2"))) as ex:
            for b, r in ex.map(lambda x: one(x, seed), ids):
                res = json.load(open(RES)) if os.path.exists(RES) else {}
                res.setdefault(b, {})[seed] = r
                json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
                if not r or r[0].startswith(("rc", "DOES")):
                    print(b, r or "MISSED", flush=True)
    table()
