"""Builds seeded/<id>/ from the definitions in bugs*.py and tries the checks on each.

build.py [ID...] [--notest] [--seeds 1,2]
Scratch copies live under /tmp/x/plant and are removed."""
import glob, importlib.util, json, os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
OUT = VERIF + "/seeded"
PY = "/opt/venv/bin/python"

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def load():
    bugs = {}
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def build(b, test=True, seeds=("1",), checks=None):
    wt = "/tmp/x/plant/" + b["id"]
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/x/plant", exist_ok=True)
    shutil.copytree("/repo", wt, symlinks=True)
    msgs = []
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(wt, "src/kcorrect", f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], ["EDIT: %d matches in %s for %r" % (s.count(old), f, old)]
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(OUT, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rc, diff = run(["git", "diff"], wt)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("from common import *\n\n" + b["demo"].strip() + "\n")
        shutil.copy(HERE + "/common.py", d)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = run(["bash", d + "/demo.sh"], "/repo")
        rc1, o1 = run(["bash", d + "/demo.sh"], wt)
        msgs.append("demo %d/%d %s" % (rc0, rc1, "" if rc0 == 0 and rc1 else "*** BAD\n" + o0[-600:] + o1[-600:]))
        if "Traceback" in o1 and not b.get("tb"):
            msgs.append("(demo traceback: %s)" % o1.strip().splitlines()[-1])
        if test:
            rc, o = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], wt, {"PYTHONPATH": wt + "/src"})
            msgs.append("tests ok" if rc == 0 else "*** TESTS FAIL\n" + o[-700:])
        for c in (checks or [b["prop"]]):
            for s in seeds:
                rc, o = run([PY, VERIF + "/check.py", c], VERIF,
                            {"KCV_REPO_SRC": wt + "/src", "VERIF_SEED": s, "PYTHONHASHSEED": "0",
                             "KCV_EVIDENCE": "/tmp/x/plant/ev_%s" % b["id"]})
                v = re.findall(r"^VIOLATION.*", o, re.M)
                msgs.append("%s seed %s: %s" % (c, s, "caught" if rc == 1 and v else
                                                "MISSED rc=%d %s" % (rc, o[-300:])))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return b["id"], msgs


if __name__ == "__main__":
    args = sys.argv[1:]
    test = "--notest" not in args
    seeds = ["1"]
    checks = None
    for a in list(args):
        if a.startswith("--seeds="):
            seeds = a[8:].split(",")
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    ids = [a for a in args if not a.startswith("--")]
    bugs = load()
    sel = [bugs[i] for i in ids] if ids else list(bugs.values())
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(lambda b: build(b, test, seeds, checks), sel):
            print(i, "|", "; ".join(m), flush=True)
