"""Helpers shared by the demonstrations (copied beside each of them)."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
import numpy as np
import kcorrect
import kcorrect.fitter
import kcorrect.kcorrect
import kcorrect.response
import kcorrect.template
import kcorrect.utils

SDSS = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]


def scratch():
    d = tempfile.mkdtemp(prefix="kcdemo")
    atexit.register(shutil.rmtree, d, True)
    return d


def default_template(interpolate=True):
    return kcorrect.template.Template(
        filename=os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits"),
        interpolate=interpolate)


class Tpl(kcorrect.template.SED):
    """Small in-memory template set."""
    def __init__(self, nsed=3, nwave=400, lo=1000., hi=30000., seed=0, interpolate=True):
        r = np.random.RandomState(seed)
        w = np.exp(np.linspace(np.log(lo), np.log(hi), nwave)).astype(np.float32)
        slopes = np.linspace(-3., 0.5, nsed) if nsed > 1 else np.array([-1.])
        f = np.array([(w / 5000.)**s * (1. + 0.3 * np.sin(np.log(w) * (3 + i % 17)))
                      for i, s in enumerate(slopes)], dtype=np.float32) * 1e-9
        super().__init__(wave=w, flux=f.astype(np.float32), interpolate=interpolate)
        n = self.nsed
        self.intsfh = np.float32(1. + r.rand(n))
        self.mremain = np.float32(0.5 + 0.4 * r.rand(n))
        self.mets = np.float32(0.01 + 0.02 * r.rand(n))
        self.m50 = np.float32(0.02 + 0.01 * r.rand(n))
        self.m300 = np.float32(0.1 + 0.1 * r.rand(n))
        self.m1000 = np.float32(0.3 + 0.1 * r.rand(n))


def kc(cls=kcorrect.kcorrect.Kcorrect, responses=SDSS, templates=None, **kw):
    kw.setdefault("redshift_range", [0., 1.])
    kw.setdefault("nredshift", 60)
    return cls(responses=list(responses), templates=templates or Tpl(), **kw)


def expect(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)


def close(a, b, msg, rtol=1e-4, atol=0.):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    expect(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol), "%s: %s vs %s" % (msg, a, b))
