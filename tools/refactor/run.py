"""Behaviour-preserving rewrites of kcorrect: every check has to stay quiet on them.

run.py [SET...] [--checks=C01,C02] [--seeds=1] [--notest]
Works on scratch copies of /repo below /tmp/x/refactor, which are removed."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sets import SETS
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env):
    e = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


opts = {a.split("=")[0]: a.partition("=")[2] for a in sys.argv[1:] if a.startswith("--")}
names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SETS)
checks = opts["--checks"].split(",") if "--checks" in opts else ["C%02d" % i for i in range(1, 40)]
checks = [c for c in checks if os.path.exists("/verif/kcv/props/%s.py" % c.lower())]
for nm in names:
    wt = "/tmp/x/refactor/" + nm
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        for f, old, new in SETS[nm]:
            p = os.path.join(wt, "src/kcorrect", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s for %r" % (nm, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        if "--notest" not in opts:
            rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], wt, {"PYTHONPATH": wt + "/src"})
            print(nm, "tests", "ok" if rc == 0 else "FAIL\n" + o[-800:], flush=True)
        for c in checks:
            for s in opts.get("--seeds", "1").split(","):
                rc, o = sh([PY, "/verif/check.py", c], "/verif", {"KCV_REPO_SRC": wt + "/src", "VERIF_SEED": s,
                           "KCV_EVIDENCE": "/tmp/x/refactor/ev_" + nm})
                if rc:
                    print(nm, c, "seed", s, "rc=%d" % rc, o[-700:], flush=True)
        print(nm, "done", flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
