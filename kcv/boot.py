"""Process set-up: single-threaded BLAS, scratch matplotlib config, kcorrect
from /repo's working tree, Hypothesis from the preinstalled tool environment."""
import atexit
import importlib.machinery
import os
import shutil
import sys
import tempfile
import warnings

REPO_SRC = os.environ.get("KCV_REPO_SRC", "/repo/src")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_VT_NAMES = {"hypothesis", "sortedcontainers", "_hypothesis_ftz_detector", "_hypothesis_globals"}

SCRATCH = None


class _VTFinder:
    """Finds Hypothesis (only) in the verification tools' site-packages, so that
    numpy, scipy and astropy stay those of the repository's own environment."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in _VT_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


def boot():
    global SCRATCH
    if SCRATCH is not None:
        return SCRATCH
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix="kcv-", dir=base)
    pid = os.getpid()

    def _clean():
        if os.getpid() == pid and SCRATCH and os.path.basename(SCRATCH).startswith("kcv-"):
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(_clean)
    mpl = os.path.join(SCRATCH, "mpl")
    os.mkdir(mpl)
    src = "/opt/vp/mplconfig"
    if os.path.isdir(src):
        for n in os.listdir(src):
            if n.endswith(".json"):
                shutil.copy(os.path.join(src, n), mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
    # scratch files of astropy's writeto, and cwd-relative output of buggy code, stay here
    work = os.path.join(SCRATCH, "cwd")
    os.mkdir(work)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO_SRC)
    sys.meta_path.append(_VTFinder)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import kcorrect
    if not os.path.realpath(kcorrect.__file__).startswith(os.path.realpath(REPO_SRC) + "/"):
        raise RuntimeError("kcorrect imported from %s, not from %s" % (kcorrect.__file__, REPO_SRC))
    import kcorrect.kcorrect  # noqa
    import kcorrect.response  # noqa
    import kcorrect.utils  # noqa
    import hypothesis  # noqa
    warnings.simplefilter("ignore")
    return SCRATCH
