"""Reference model: the documented definitions in plain float64 numpy, written
without using any kcorrect code (only its bundled data files and formulas)."""
import itertools
import os

import numpy as np
from scipy.interpolate import CubicSpline

from . import boot

C_ANG = 2.99792e18          # Angstrom / s
JY = 1e-23
PC_CM = 3.086e18


def data_dir(*p):
    return os.path.join(boot.REPO_SRC, "kcorrect", "data", *p)


def sed_ab(w):
    w = np.asarray(w, dtype=np.float64)
    return 3631. * JY * C_ANG / w**2


def parse_dat(path):
    """(lambda, pass) columns of a fixed-width .dat file, in file order."""
    head, rows = None, []
    with open(path) as fp:
        for line in fp:
            if line.lstrip().startswith("#") or not line.strip():
                continue
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            if head is None:
                head = cells
            else:
                rows.append(cells)
    il, ip = head.index("lambda"), head.index("pass")
    return (np.array([float(r[il]) for r in rows]), np.array([float(r[ip]) for r in rows]))


def sorted_curve(w, r):
    w, r = np.asarray(w, dtype=np.float64), np.asarray(r, dtype=np.float64)
    i = np.argsort(w, kind="stable")
    return w[i], r[i]


def spline0(x, y, axis=-1):
    """Cubic (not-a-knot) interpolation, zero outside of the grid."""
    x = np.asarray(x, dtype=np.float64)
    cs = CubicSpline(x, np.asarray(y, dtype=np.float64), axis=axis, bc_type="not-a-knot")

    def f(v):
        v = np.asarray(v, dtype=np.float64)
        return np.where((v >= x[0]) & (v <= x[-1]), cs(v), 0.)
    return f


def _trapz(y, x):
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


class Curve:
    """A bandpass: sorted curve and its spline."""

    def __init__(self, w, r):
        self.w, self.r = sorted_curve(w, r)
        self.f = spline0(self.w, self.r)

    def lambda_eff(self):
        return float(np.exp(_trapz(np.log(self.w) * self.r / self.w, self.w) /
                            _trapz(self.r / self.w, self.w)))

    def cond(self):
        g = np.linspace(self.w[0], self.w[-1], 20 * len(self.w))
        v = self.f(g)
        return float(np.abs(v).sum() / max(v.sum(), 1e-300))


def _project_once(c, w, f, sf):
    """Trapezoid rule over the band at the union of the samples of the curve and
    of the spectrum; ratio to the AB source: (values, scale of the integrand)."""
    if w[-1] < c.w[0] or w[0] > c.w[-1]:
        z = np.zeros(f.shape[0])
        return z, z
    grid = np.union1d(w[(w >= c.w[0]) & (w <= c.w[-1])], c.w)
    rr = c.f(grid) * grid
    s = sf(grid)
    ab = sed_ab(grid) * rr
    den = _trapz(ab, grid)
    val = _trapz(s * rr, grid) / den
    return val, (_trapz(np.abs(s * rr), grid) + np.abs(val) * _trapz(np.abs(ab), grid)) / np.abs(den)


def _rounding(c, w, val, sf, e=2e-7):
    """First-order bound on how far the projections val move if every sample of
    the integration grid moves by a relative e (single precision wavelengths)."""
    if w[-1] < c.w[0] or w[0] > c.w[-1]:
        return np.zeros_like(val)
    x = np.union1d(w[(w >= c.w[0]) & (w <= c.w[-1])], c.w)
    h = np.diff(x)
    dx = 0.5 * (np.append(h, 0.) + np.insert(h, 0, 0.))

    def move(g, gp):
        pad = np.concatenate([g[..., :1], g, g[..., -1:]], axis=-1)
        return np.sum(np.abs(dx * (gp - g)) + e * x * np.abs(pad[..., 2:] - pad[..., :-2]) / 2., axis=-1)
    xp = np.where(x * (1 + e) <= min(x[-1], w[-1]), x * (1 + e), x * (1 - e))
    r, rp = c.f(x) * x, c.f(xp) * xp
    ab, abp = sed_ab(x) * r, sed_ab(xp) * rp
    return (move(sf(x) * r, sf(xp) * rp) + np.abs(val) * move(ab, abp)) / np.abs(_trapz(ab, x))


def project(c, w, f, cond=False):
    """AB maggies of spectra f[n, nwave] through curve c: (values, error scale).
    The error scale is the projection of |integrand|; with cond it includes how
    much the result moves when the wavelengths move by a rounding error."""
    w = np.asarray(w, dtype=np.float64)
    f = np.atleast_2d(np.asarray(f, dtype=np.float64))
    val, scale = _project_once(c, w, f, spline0(w, f))
    if cond:
        for e in (2e-7, -2e-7):
            w2 = w * (1 + e)
            v2, _ = _project_once(c, w2, f, spline0(w2, f))
            scale = np.maximum(scale, np.abs(v2 - val) * 1e5)
    return val, scale


# ---------------------------------------------------------------- basel models

NBASEL = 1221


def parse_basel(path):
    words = open(path).read().split()
    wave = np.array([float(x) for x in words[:NBASEL]])
    rest = words[NBASEL:]
    step = NBASEL + 6
    info, flux = [], []
    for k in range(len(rest) // step):
        blk = rest[k * step:(k + 1) * step]
        info.append([float(x) for x in blk[:6]])
        flux.append([float(x) for x in blk[6:]])
    return info, wave, np.array(flux)


_STARS = {}


def star(name):
    """Observed (wave Angstrom, flux) of the bundled Sun (at 10 pc) or Vega model."""
    if name not in _STARS:
        fn, radius, dist = dict(sun=("lcbsun.ori", 6.960e10, 10.),
                                vega=("lcbvega.ori", 1.91144e11, 7.68))[name]
        _, wave, flux = parse_basel(data_dir("basel", fn))
        w = wave * 10.
        f = flux[0] * 4. * np.pi * C_ANG / w**2 * (radius / (dist * PC_CM))**2
        _STARS[name] = (w, f)
    return _STARS[name]


def star_mag(c, name):
    """(AB magnitude or None, its tolerance). The tolerance is None if single
    precision of the model spectrum leaves open whether its flux is positive."""
    w, f = star(name)
    v, s = project(c, w, f)
    v, s = float(v[0]), float(s[0])
    if s == 0:
        return None, 1e-4
    # effect of rounding the model to single precision
    rs = np.random.RandomState(12345)
    dv = 2e-5 * s
    for _ in range(3):
        v2, _s = project(c, w, f * (1 + 6e-8 * rs.choice([-1., 1.], size=f.shape)))
        dv = max(dv, 8 * abs(float(v2[0]) - v))
    if abs(v) < 2 * dv or abs(v) < 1e-30:
        return (mag(v) if v > 0 else None), None
    if v < 0:
        return None, 1e-4
    return float(mag(v)), max(1e-4, 1.1 * dv / v)


# -------------------------------------------------------------------- nnls etc

def nnls_brute(A, b):
    """Smallest ||Ax-b|| over x >= 0 by trying every support: (rnorm, x)."""
    A, b = np.asarray(A, np.float64), np.asarray(b, np.float64)
    n = A.shape[1]
    best, bx = float(np.linalg.norm(b)), np.zeros(n)
    norms = np.linalg.norm(A, axis=0)
    use = [j for j in range(n) if norms[j] > 0]
    for k in range(1, len(use) + 1):
        if k > A.shape[0]:
            break
        for S in itertools.combinations(use, k):
            S = list(S)
            As = A[:, S] / norms[S]
            y, *_ = np.linalg.lstsq(As, b, rcond=None)
            if (y < 0).any():
                if (y < -1e-9 * np.abs(y).max()).any():
                    continue
                y = np.maximum(y, 0)
            r = float(np.linalg.norm(As @ y - b))
            if r < best:
                best, bx = r, np.zeros(n)
                bx[S] = y / norms[S]
    return best, bx


def grid(z0, z1, nz):
    z0, z1 = float(np.float32(z0)), float(np.float32(z1))
    return z0 + (z1 - z0) * np.arange(nz) / (nz - 1.)


def mag(f):
    f = np.asarray(f, dtype=np.float64)
    return -2.5 * np.log10(f)


def dm_of(d_mpc):
    return 5. * np.log10(np.asarray(d_mpc, dtype=np.float64) * 1e5)


class Model:
    """Reference for one fitter configuration. curves: list of input Curve,
    out: list of output Curve, imap: indices, tw/tf: rest-frame templates."""

    def __init__(self, curves, out, imap, tw, tf, z0, z1, nz, props=None, cosmo=None, solar=None):
        self.curves, self.out, self.imap = curves, out, list(imap)
        self.tw = np.asarray(tw, np.float64)
        self.tf = np.atleast_2d(np.asarray(tf, np.float64))
        self.grid = grid(z0, z1, nz)
        self.zmin, self.zmax = self.grid[0], self.grid[-1]
        self.props, self.cosmo, self.solar = props, cosmo, solar
        self._node = {}
        self._spl = spline0(self.tw, self.tf)
        self.nsed = self.tf.shape[0]

    def direct(self, c, z):
        """[nsed] projection of the templates at redshift z through curve c."""
        w, f = self.tw * (1 + z), self.tf / (1 + z)
        sf = lambda g: self._spl(np.asarray(g) / (1 + z)) / (1 + z)
        v, s = _project_once(c, w, f, sf)
        s = np.maximum(s, _rounding(c, w, v, sf) / 6e-6)
        if w[-1] >= c.w[0] and w[0] <= c.w[-1]:
            # rounding of the spline, where the spectrum is (nearly) zero
            s = s + 1e-15 / 6e-6 * np.abs(f).max(axis=1) / sed_ab(c.w[-1])
        if w[0] > c.w[0] or w[-1] < c.w[-1]:
            # partial coverage: which samples count hangs on rounding of the wavelengths
            for e in (3e-7, -3e-7):
                y = (1 + z) * (1 + e)
                v2, _ = _project_once(c, self.tw * y, f, lambda g: self._spl(np.asarray(g) / y) / (1 + z))
                s = np.maximum(s, 3e5 * np.abs(v2 - v))
        return v, s

    def node(self, which, i):
        """(A[nb, nsed], scale[nb, nsed]) at grid node i."""
        key = (which, i)
        if key not in self._node:
            cs = self.curves if which == "in" else self.out
            vs = [self.direct(c, self.grid[i]) for c in cs]
            self._node[key] = (np.array([v for v, _ in vs]), np.array([s for _, s in vs]))
        return self._node[key]

    def A(self, which, z):
        """Linear interpolation of the tabulated projections: (A, tolerance)."""
        nz = len(self.grid)
        i = int(np.clip(np.searchsorted(self.grid, z) - 1, 0, nz - 2))
        A0, s0 = self.node(which, i)
        A1, s1 = self.node(which, i + 1)
        t = (z - self.grid[i]) / (self.grid[i + 1] - self.grid[i])
        slope = np.abs(A1 - A0) / (self.grid[i + 1] - self.grid[i])
        # near a node the neighbouring cell's slope may apply after rounding
        for j in (i - 1, i + 2):
            if 0 <= j < nz and (t < 1e-3 or t > 1 - 1e-3):
                B, _ = self.node(which, j)
                near = A0 if j < i else A1
                slope = np.maximum(slope, np.abs(B - near) / (self.grid[1] - self.grid[0]))
        tol = 6e-6 * np.maximum(s0, s1) + 6e-7 * (1 + abs(z)) * slope
        return A0 + t * (A1 - A0), tol

    def reconstruct(self, which, z, coeffs, b=0.):
        """(maggies[nb], tolerance[nb]) of one object."""
        s = z + b * (1. + z)
        A, tol = self.A(which, s)
        c = np.asarray(coeffs, np.float64)
        return A @ c / (1. + b), tol @ np.abs(c) / (1. + b)

    def kcorrect(self, z, coeffs, b=0.):
        """(K[nout], tolerance in mag); zeros if all coefficients are zero."""
        c = np.asarray(coeffs, np.float64)
        if not (c.sum() > 0):
            return np.zeros(len(self.imap)), np.full(len(self.imap), 1e-9)
        fi, ti = self.reconstruct("in", z, c)
        fo, to = self.reconstruct("out", 0., c, b)
        fi, ti = fi[self.imap], ti[self.imap]
        return mag(fi) - mag(fo), 1.2 * (ti / np.abs(fi) + to / np.abs(fo)) + 3e-6

    def dm(self, z, d=None):
        if d is not None:
            return float(dm_of(np.float32(d)))
        return float(dm_of(self.cosmo.luminosity_distance(float(z)).to_value("Mpc")))

    def dm_tol(self, z, d=None):
        """Single-precision uncertainty of the distance modulus (astropy evaluates
        some cosmologies less accurately for a single-precision redshift)."""
        if d is not None or not (z > 0):
            return 1.2e-5
        a = self.cosmo.distmod(float(z)).value
        return 1.2e-5 + 3 * max(abs(float(self.cosmo.distmod(np.float32(z)).value) - a),
                                abs(float(self.cosmo.distmod(np.float32([z]))[0].value) - a))

    def absmag(self, z, m, iv, c, b=0., d=None):
        """dict of (value, tolerance) for absmag, reconstruct, limit, k."""
        m, iv = np.asarray(m, np.float64)[self.imap], np.asarray(iv, np.float64)[self.imap]
        k, tk = self.kcorrect(z, c, b)
        dm, td = self.dm(z, d), self.dm_tol(z, d)
        nz = np.asarray(c, np.float64).sum() > 0
        with np.errstate(all="ignore"):
            a = np.where((m > 0) & (iv > 0), mag(m) - dm - k, -9999.)
            lim = np.where((iv > 0) & nz, mag(1. / np.sqrt(iv)) - dm - k, -9999.)
            fo, to = self.reconstruct("out", 0., c, b)
            rec = np.where(fo > 0, mag(fo) - dm, -9999.)
            tr = np.where(fo > 0, 1.2 * to / np.abs(fo), 0.)
        ta = tk + td
        return dict(absmag=(a, np.where(a == -9999., 0., ta)), reconstruct=(rec, np.where(rec == -9999., 0., tr + td)),
                    limit=(lim, np.where(lim == -9999., 0., ta)), k=(k, tk))

    def derived(self, z, c, b=0., d=None):
        p = self.props
        c = np.asarray(c, np.float64)
        dm = self.dm(z, d)
        df = 10.**(0.4 * dm)
        mrem, sfh = c @ p["mremain"] * df, c @ p["intsfh"] * df
        out = dict(mremain=mrem, intsfh=sfh, dtol=self.dm_tol(z, d) + 1e-5)
        ok = mrem > 0
        out["metallicity"] = c @ (p["mremain"] * p["mets"]) * df / mrem if ok else 0.
        for k in ("50", "300", "1000"):
            out["b" + k] = c @ p["m" + k] * df / sfh if ok else 0.
        fo, to = self.reconstruct("out", 0., c, b)
        # solar: (magnitude or None, tolerance or None if undetermined) per output band
        mtol, tm = np.zeros(len(fo)), np.zeros(len(fo))
        for i, (s, ts) in enumerate(self.solar):
            lum = fo[i] / 10.**(-0.4 * ((0. if s is None else s) + dm))
            if lum > 0:
                mtol[i] = mrem / lum
                tm[i] = mtol[i] * (1.2 * to[i] / fo[i] + (ts if ts is not None else np.inf) + 2e-5)
            if not (fo[i] > 3 * to[i]) and np.any(c):
                tm[i] = np.inf
        out["mtol"] = mtol
        out["mtol_tol"] = tm
        return out


# ------------------------------------------------------------------- utilities

ABFIX = np.array([-0.036, 0.012, 0.010, 0.028, 0.040])
SOFT = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10])


def sdss_ab(m, iv=None, fix=ABFIX):
    fac = 10.**(-0.4 * np.asarray(fix, np.float64))
    m = np.asarray(m, np.float64) * fac
    return m if iv is None else (m, np.asarray(iv, np.float64) / fac**2)


def asinh_to_maggies(mag_, err=None, ext=None):
    mag_ = np.asarray(mag_, np.float64)
    x = -np.log(SOFT) - 0.4 * np.log(10.) * mag_
    e = 10.**(0.4 * np.asarray(ext, np.float64)) if ext is not None else np.ones_like(mag_)
    m = 2. * SOFT * np.sinh(x) * e
    if err is None:
        return m
    s = 2. * SOFT * np.cosh(x) * 0.4 * np.log(10.) * np.asarray(err, np.float64) * e
    return m, 1. / s**2


def asinh_mag(f, b=SOFT):
    """asinh magnitude of flux f (Lupton et al. 1999)."""
    return -2.5 / np.log(10.) * (np.arcsinh(np.asarray(f, np.float64) / (2. * b)) + np.log(b))
