"""Hypothesis strategies for JSON-able cases, and the builders that turn them into
kcorrect objects plus the reference model of the same configuration."""
import functools
import hashlib
import json
import os

import numpy as np
from hypothesis import strategies as st

from . import boot, ref


def f32(x):
    return float(np.float32(x))


def g6(x):
    return float("%.6g" % x)


def lin(lo, hi, n=1000):
    return st.integers(0, n).map(lambda i: g6(lo + (hi - lo) * i / n))


def lg(lo, hi, n=1000):
    a, b = np.log10(lo), np.log10(hi)
    return st.integers(0, n).map(lambda i: g6(10.**(a + (b - a) * i / n)))


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------- responses

@functools.lru_cache(None)
def bundled():
    """Names of all bundled response files that hold lambda and pass columns."""
    d = ref.data_dir("responses")
    out = []
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".dat") and os.path.isfile(os.path.join(d, fn)):
            try:
                w, r = ref.parse_dat(os.path.join(d, fn))
            except ValueError:
                continue
            if len(w) >= 4:
                out.append(fn[:-4])
    return out


@functools.lru_cache(None)
def curve_of_file(name):
    path = name + ".dat" if os.path.isabs(name) else ref.data_dir("responses", name + ".dat")
    return ref.Curve(*ref.parse_dat(path))


OPTICAL = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0", "galex_NUV", "twomass_J", "twomass_H",
           "twomass_Ks", "decam_g", "decam_r", "decam_z", "bessell_B", "bessell_V", "FORS_V_ccd_atm", "alhambra_768",
           "wise_w1", "galex_FUV"]


def optical():
    b = set(bundled())
    return [n for n in OPTICAL if n in b]


@functools.lru_cache(None)
def lookalikes():
    """Pairs of optical bandpasses whose names are easily mixed up."""
    b = set(bundled())
    p = [("twomass_J", "oldtwomass_J"), ("twomass_Ks", "alhambra_KS"), ("bessell_B", "deep_B"), ("bessell_V", "vimos_V"),
         ("subaru_suprimecam_B", "capak_subaru_suprimecam_B"), ("decam_g", "bass_g"), ("bass_r", "bessell_R"),
         ("bessell_I", "decam_i"), ("clash_acs_f606w", "clash_wfc3_f606w"), ("wfcam_J", "ukirt_wfcam_J")]
    return [list(q) for x, y in p for q in ((x, y), (y, x)) if x in b and y in b]


def file_resp(names=None):
    return st.sampled_from(names or optical()).map(lambda n: dict(k="file", n=n))


@st.composite
def gauss_resp(draw, lo=1500., hi=25000., nmax=40):
    c = draw(lg(lo, hi))
    return dict(k="g", c=c, s=g6(c * draw(lg(0.01, 0.15))), n=draw(st.integers(5, nmax)),
                e=draw(st.sampled_from([1.5, 2.5, 4.])), a=draw(st.sampled_from([1., 0.3, 50.])))


@st.composite
def pts_resp(draw, lo=1000., hi=30000., nmin=4, nmax=20, unsorted=False):
    """Arbitrary curve through points; positive somewhere, edges zero or not."""
    n = draw(st.integers(nmin, nmax))
    w = draw(lg(lo, hi))
    step = w * draw(lg(0.002, 0.05))
    ws, rs = [], []
    for _ in range(n):
        ws.append(g6(w))
        w += step * draw(st.sampled_from([1., 1., 0.5, 2., 0.2]))
        rs.append(draw(st.sampled_from([0., 1., .5, .25, .75, .1, .9, .6, .33])))
    if draw(st.booleans()):
        rs[0] = 0.
    if draw(st.booleans()):
        rs[-1] = 0.
    if sum(rs) < 0.5:
        rs[n // 2] = 1.
    ws = sorted(set(ws))
    while len(ws) < n:
        ws.append(g6(ws[-1] + step))
    case = dict(k="pts", w=ws, r=rs, a=draw(st.sampled_from([1., 1., 0.01, 37.])))
    if unsorted:
        case["p"] = draw(st.permutations(list(range(n))))
    return case


def resp_any(lo=1500., hi=25000.):
    return st.one_of(file_resp(), gauss_resp(lo, hi), pts_resp(lo, hi))


def resp_arrays(spec):
    """(wave, response) float64 arrays of a non-file spec, in the given order."""
    if spec["k"] == "g":
        w = np.linspace(spec["c"] - spec["e"] * spec["s"], spec["c"] + spec["e"] * spec["s"], spec["n"])
        r = spec["a"] * np.exp(-0.5 * ((w - spec["c"]) / spec["s"])**2)
        if spec["e"] > 3:
            r[0] = r[-1] = 0.
        return w, r
    w, r = np.array(spec["w"]), np.array(spec["r"]) * spec.get("a", 1.)
    if "p" in spec:
        w, r = w[spec["p"]], r[spec["p"]]
    return w, r


RESP_TYPES = ["f8", "f8", "f4", "be8", "i"]


def resp_cast(w, r, dt):
    """Bandpass arrays of a given type ("i": whole wavelengths with a real curve);
    None if two wavelengths coincide."""
    if dt == "i":
        w = np.round(w).astype(np.int64)
    elif dt == "be8":
        w, r = w.astype(">f8"), r.astype(">f8")
    else:
        w, r = w.astype(dt), r.astype(dt)
    if len(np.unique(w)) != len(w):
        return None
    return w, r


def write_dat(path, w, r, head=True):
    lines = ["# generated bandpass"] if head else []
    rows = [("lambda", "pass")] + [(repr(float(a)), repr(float(b))) for a, b in zip(w, r)]
    n0, n1 = max(len(a) for a, _ in rows), max(len(b) for _, b in rows)
    lines += ["| %s | %s |" % (a.rjust(n0), b.rjust(n1)) for a, b in rows]
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "w") as fp:
        fp.write("\n".join(lines) + "\n")
    os.rename(tmp, path)


def scratch(*p):
    d = os.path.join(boot.SCRATCH, *p)
    os.makedirs(d, exist_ok=True)
    return d


def resp_name(spec):
    """Name under which load_response() finds the bandpass."""
    if spec["k"] == "file":
        return spec["n"]
    base = os.path.join(scratch("resp"), h(spec))
    if not os.path.exists(base + ".dat"):
        w, r = resp_arrays(spec)
        if spec["k"] == "g":
            w, r = np.round(w, 6), np.round(r, 9)
        write_dat(base + ".dat", w, r)
    return base


_CURVES = {}


def curve(spec):
    key = spec["n"] if spec["k"] == "file" else h(spec)
    if key not in _CURVES:
        if len(_CURVES) > 3000:
            _CURVES.clear()
        if spec["k"] == "file":
            _CURVES[key] = ref.Curve(*ref.parse_dat(ref.data_dir("responses", key + ".dat")))
        else:
            w, r = resp_arrays(spec)
            if spec["k"] == "g":
                w, r = np.round(w, 6), np.round(r, 9)
            _CURVES[key] = ref.Curve(w, r)
    return _CURVES[key]


_SOLAR = {}


def solar_of(spec):
    key = spec["n"] if spec["k"] == "file" else h(spec)
    if key not in _SOLAR:
        _SOLAR[key] = ref.star_mag(curve(spec), "sun")
    return _SOLAR[key]


# ------------------------------------------------------------------------ SEDs

@st.composite
def sed_comp(draw):
    """One smooth nonnegative spectrum: power law, break, bumps."""
    d = dict(p=draw(st.sampled_from([-3., -2., -1., 0., 1.])), n=draw(lin(-11, -7, 40)))
    if draw(st.booleans()):
        d["b"] = [draw(lg(1000, 10000, 50)), draw(st.sampled_from([0.3, 0.7, 0.95]))]
    g = [[draw(lg(1500, 20000, 50)), draw(lg(0.003, 0.3, 20)), draw(lg(0.3, 10., 10))]
         for _ in range(draw(st.integers(0, 2)))]
    if g:
        d["g"] = g
    if draw(st.integers(0, 9)) == 0:
        d["0"] = draw(st.sampled_from([[0., 912.], [0., 3646.], [2500., 4000.], [9000., 1e9]]))     # no flux there
    return d


def comp_flux(d, w):
    f = 10.**d["n"] * (w / 5000.)**d["p"]
    if "b" in d:
        f = f * (1. - d["b"][1] / (1. + np.exp(np.clip((w - d["b"][0]) / (0.02 * d["b"][0]), -50, 50))))
    if "0" in d:
        f = np.where((w > d["0"][0]) & (w < d["0"][1]), 0., f)
    for c, s, a in d.get("g", []):
        f = f * (1. + a * np.exp(-0.5 * ((w - c) / (s * c))**2))
    return f


def wave_grid(s):
    if s.get("log", 1):
        return np.logspace(np.log10(s["lo"]), np.log10(s["hi"]), s["n"])
    return np.linspace(s["lo"], s["hi"], s["n"])


@st.composite
def smooth_sed(draw, nsed=None, lo=(300., 300.), hi=(200000., 200000.), n=(150, 500)):
    k = draw(st.integers(1, 4)) if nsed is None else nsed
    return dict(k="smooth", lo=draw(lg(*lo)) if lo[0] != lo[1] else lo[0],
                hi=draw(lg(*hi)) if hi[0] != hi[1] else hi[0],
                n=draw(st.integers(*n)), log=1, sed=[draw(sed_comp()) for _ in range(k)])


@st.composite
def pts_sed(draw, lo=800., hi=30000., nsed=None, nmax=25, signed=True):
    """Arbitrary spectrum through points, any sampling from far coarser to finer than the bands."""
    n = draw(st.integers(4, nmax))
    k = draw(st.integers(1, 3)) if nsed is None else nsed
    w = draw(lg(lo, hi))
    step = w * draw(lg(0.001, 0.6))
    ws = []
    for _ in range(n):
        ws.append(g6(w))
        w += step * draw(st.sampled_from([1., 1., 0.5, 2.]))
    ws = sorted(set(ws))
    while len(ws) < n:
        ws.append(g6(ws[-1] + step))
    vals = [0., 1., 2., .5, 3., .1, 10.] + ([-1.] if signed else [])
    amp = draw(lg(1e-17, 1e-6, 20))
    f = [[draw(st.sampled_from(vals)) for _ in range(n)] for _ in range(k)]
    return dict(k="pts", w=ws, f=f, a=amp)


def sed_arrays(s):
    """(wave[nwave], flux[nsed, nwave]) float64."""
    if s["k"] == "pts":
        return np.array(s["w"], dtype=float), np.array(s["f"], dtype=float) * s["a"]
    w = wave_grid(s)
    return w, np.array([comp_flux(d, w) for d in s["sed"]])


# ------------------------------------------------------------------- templates

PROPS = ("intsfh", "mremain", "mets", "m50", "m300", "m1000")


@st.composite
def templates(draw, nsed=(1, 6), full=True, n=(150, 400)):
    k = draw(st.integers(*nsed))
    if full:
        lo, hi = 300., 200000.
    else:
        lo, hi = draw(lg(1500, 5000)), draw(lg(7000, 30000))
    d = dict(k="syn", lo=lo, hi=hi, n=draw(st.integers(*n)), log=1,
             sed=[draw(sed_comp()) for _ in range(k)])
    d["m"] = {}
    for p in PROPS:
        d["m"][p] = [draw(lg(0.1, 10., 30)) for _ in range(k)]
    if draw(st.integers(0, 3)) == 0:
        # templates with no recent star formation, or no mass at all
        d["m"]["m50"][0] = 0.
        d["m"]["m300"][0] = 0.
    d["lay"] = draw(st.sampled_from(["table", "table", "bin"]))
    d["m50"] = draw(st.sampled_from([1, 1, 0]))
    return d


def tmpl_arrays(t):
    """(wave, flux, props) float64 of the values stored in the file."""
    if t["k"] == "file":
        return _file_tmpl(t["n"])
    w = wave_grid(t).astype(np.float32)
    f = np.array([comp_flux(d, w.astype(np.float64)) for d in t["sed"]])
    if "rep" in t:
        f = np.tile(f, (t["rep"] // len(f) + 1, 1))[:t["rep"]] * (1. + np.arange(t["rep"]) / t["rep"])[:, None]
    f = f.astype(np.float32)
    props = {}
    for p in PROPS:
        v = np.resize(np.array(t["m"][p], dtype=np.float32), f.shape[0])
        props[p] = v.astype(np.float64)
    if not t["m50"]:
        props["m50"] = props["m50"] * 0.
    return w.astype(np.float64), f.astype(np.float64), props


@functools.lru_cache(None)
def _file_tmpl(n):
    import astropy.io.fits as fits
    with fits.open(ref.data_dir("templates", n)) as hd:
        names = [x.name for x in hd]
        w = np.array(hd["FLUX"].data["wave"], np.float64).reshape(-1)
        f = np.array(hd["FLUX"].data["flux"], np.float64).reshape(-1, len(w))
        props = {p: (np.array(hd[p.upper()].data, np.float64) if p.upper() in names else np.zeros(len(f)))
                 for p in PROPS}
    return w, f, props


def tmpl_file(t):
    """Path of a template FITS file, written by astropy in the documented layout."""
    if t["k"] == "file":
        return ref.data_dir("templates", t["n"])
    import astropy.io.fits as fits
    path = os.path.join(scratch("tmpl"), h(t) + ".fits")
    if os.path.exists(path):
        return path
    w, f, props = tmpl_arrays(t)
    w, f = w.astype(np.float32), f.astype(np.float32)
    hd = [fits.PrimaryHDU()]
    if t["lay"] == "bin":
        hd += [fits.ImageHDU(w, name="WAVE"), fits.ImageHDU(f, name="FLUX")]
        hd[-1].header["BINIMAGE"] = "T"
    else:
        row = np.zeros(1, dtype=[("wave", np.float32, len(w)), ("flux", np.float32, f.shape)])
        row["wave"], row["flux"] = w, f
        hd.append(fits.BinTableHDU(row, name="FLUX"))
    for p in PROPS:
        if p == "m50" and not t["m50"]:
            continue
        hd.append(fits.ImageHDU(props[p].astype(np.float32), name=p.upper()))
    tmp = "%s.%d.tmp" % (path, os.getpid())
    fits.HDUList(hd).writeto(tmp, overwrite=True)
    os.rename(tmp, path)
    return path


DEFAULT_T = dict(k="file", n="kcorrect-default-v4.fits")
LRG_T = dict(k="file", n="kcorrect-lrg1-v4.fits")


# -------------------------------------------------------------- configurations

@st.composite
def config(draw, nb=(1, 5), nsed=(1, 6), full=True, nz=(2, 12), out=True, zpos=False, zmax=2.5, fitter=False,
           real=True, zmin_neg=True, big=True):
    d = {}
    # now and then one dimension as large as users have it
    big = {0: "nb", 1: "nsed", 2: "nz"}.get(draw(st.integers(0, 41))) if big else None
    if big == "nb" and nb[1] > nb[0]:
        nb = (7, 15)
    elif big == "nsed" and nsed[1] > nsed[0]:
        nsed = (7, 24)
    elif big == "nz" and nz[1] > nz[0]:
        nb, nsed, real = (nb[0], max(nb[0], 2)), (nsed[0], max(nsed[0], 2)), False
        nz = draw(st.sampled_from([100, 128, 256, 500, 999, 1000, 1001, 1024, 1500, 2000]))
        nz = (nz, nz + 1)
    if real and draw(st.integers(0, 9)) == 0:
        # the bundled templates with survey bands, from a short list so that they are cached
        d["t"] = draw(st.sampled_from([DEFAULT_T, DEFAULT_T, LRG_T]))
        names = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
        k = draw(st.sampled_from([5, 3]))
        d["b"] = [dict(k="file", n=n) for n in names[:k]]
        d["z"], d["nz"], d["it"] = [0., 1.], 15, 1
        if out and draw(st.booleans()):
            d["out"] = [dict(k="file", n=n) for n in ("bessell_B", "sdss_r0", "bessell_V") if n in bundled()]
            d["map"] = list(range(len(d["out"])))
        return d
    d["t"] = draw(templates(nsed=nsed, full=full))
    n = draw(st.integers(*nb))
    d["b"] = [draw(resp_any()) for _ in range(n)]
    if n > 1 and draw(st.integers(0, 7)) == 0:
        d["b"][-1] = d["b"][0]
    elif n > 1 and draw(st.integers(0, 7)) == 0:
        i, j = draw(st.sampled_from([(0, 1), (0, n - 1), (n - 2, n - 1)]))
        d["b"][i], d["b"][j] = [dict(k="file", n=x) for x in draw(st.sampled_from(lookalikes()))]
    z1 = draw(lg(0.05, zmax))
    z0 = 0.
    if zpos and draw(st.integers(0, 3)) == 0:
        z0 = g6(z1 * draw(lin(0.05, 0.6)))
    elif zmin_neg and draw(st.integers(0, 3)) == 0:
        z0 = -draw(lin(0.001, 0.2))
    d["z"] = [z0, z1]
    d["nz"] = draw(st.integers(*nz))
    d["it"] = draw(st.sampled_from([1, 1, 0]))
    if out:
        mode = draw(st.integers(0, 4))
        if mode == 1:       # as many outputs, default map
            d["out"] = [draw(st.one_of(resp_any(), st.sampled_from(d["b"]))) for _ in range(n)]
        elif mode == 2:     # any number of outputs
            m = draw(st.integers(1, 5))
            d["out"] = [draw(st.one_of(resp_any(), st.sampled_from(d["b"]))) for _ in range(m)]
            d["map"] = [draw(st.integers(0, n - 1)) for _ in range(m)]
        elif mode == 3:     # default outputs, permuted map
            d["map"] = [draw(st.integers(0, n - 1)) for _ in range(n)]
        elif mode == 4:     # some of the input bands, in any order
            p = draw(st.permutations(list(range(n))))[:draw(st.integers(1, n))]
            d["out"] = [d["b"][i] for i in p]
            d["map"] = p if draw(st.booleans()) else [draw(st.integers(0, n - 1)) for _ in p]
    if draw(st.integers(0, 3)) == 0:
        d["cosmo"] = dict(H0=draw(lin(50, 100, 50)), Om=draw(lin(0.1, 0.6, 50)))
    return d


@functools.lru_cache(32)
def _cosmo(h0, om):
    import astropy.cosmology as ac
    return ac.FlatLambdaCDM(H0=h0, Om0=om)


def cosmo_of(d):
    import astropy.cosmology as ac
    c = d.get("cosmo")
    return ac.Planck18 if c is None else _cosmo(c["H0"], c["Om"])


class Built:
    pass


_BUILT = {}


def make(d, cls=None, ctx=None, **kw):
    """A new kcorrect object for configuration d."""
    import kcorrect.kcorrect as kk
    import kcorrect.template as kt
    t = kw.pop("templates", None)
    if t is None:
        t = kt.Template(filename=tmpl_file(d["t"]), interpolate=bool(d.get("it", 1)))
    names = [resp_name(s) for s in d["b"]]
    a = dict(responses=names, templates=t, redshift_range=list(d["z"]), nredshift=d["nz"])
    if cls == "Fitter":
        import kcorrect.fitter as kf
        o = kf.Fitter(**a)
        o.set_Amatrix()
        return o
    if "out" in d:
        a["responses_out"] = [resp_name(s) for s in d["out"]]
    if "map" in d:
        a["responses_map"] = [names[i] for i in d["map"]]
    if d.get("cosmo"):
        a["cosmo"] = cosmo_of(d)
    a.update(kw)
    return getattr(kk, cls or "Kcorrect")(**a)


def model_of(d):
    names = [resp_name(s) for s in d["b"]]
    curves = [curve(s) for s in d["b"]]
    out = [curve(s) for s in d["out"]] if "out" in d else curves
    m = d["map"] if "map" in d else range(len(curves))
    imap = [names.index(names[i]) for i in m]
    tw, tf, props = tmpl_arrays(d["t"])
    solar = [solar_of(s) for s in (d["out"] if "out" in d else d["b"])]
    return ref.Model(curves, out, imap, tw, tf, d["z"][0], d["z"][1], d["nz"], props=props,
                     cosmo=cosmo_of(d), solar=solar)


def build(d, ctx, cls=None, fresh=False):
    """kcorrect object and reference model of a configuration (those with bundled
    templates are kept between cases)."""
    key = h([d, cls])
    if not fresh and key in _BUILT:
        return _BUILT[key]
    b = Built()
    b.d = d
    b.k = ctx.call("construction", make, d, cls)
    b.m = model_of(d)
    b.nb, b.nout, b.nsed = len(b.m.curves), len(b.m.out), b.m.nsed
    if d["t"]["k"] == "file" and not fresh:
        _BUILT[key] = b
    return b


# --------------------------------------------------------------------- objects

@st.composite
def redshift(draw, d, positive=False):
    """A single-precision redshift inside the range of configuration d."""
    z0, z1 = f32(d["z"][0]), f32(d["z"][1])
    m = draw(st.integers(0, 9))
    if m == 0:
        z = z1
    elif m == 1:
        z = z0
    elif m == 2:
        z = 0. if z0 <= 0 else z0
    elif m <= 4:
        i = draw(st.integers(0, d["nz"] - 1))
        z = z0 + (z1 - z0) * i / (d["nz"] - 1.)
    else:
        z = z0 + (z1 - z0) * draw(lin(0, 1))
    z = f32(z)
    if positive and z <= 1e-4:
        z = f32(z1 * draw(lin(0.05, 0.95)))
    return min(max(z, z0), z1)


def ntmpl(d):
    if d["t"]["k"] == "file":
        return _file_tmpl(d["t"]["n"])[1].shape[0]
    return d["t"].get("rep", len(d["t"]["sed"]))


@st.composite
def coeffs(draw, d, zero_ok=False, allzero=0):
    """Nonnegative coefficients, some zero; all zero in about allzero tenths of the cases."""
    n = ntmpl(d)
    if allzero and draw(st.integers(0, 9)) < allzero:
        return [0.] * n
    base = draw(st.sampled_from([1e-4, 1., 1e-9, 30., 1e-14]))
    c = [draw(st.one_of(st.just(0.), lg(0.01, 10., 60), lg(0.01, 10., 60))) * base for _ in range(n)]
    if not any(c):
        c[draw(st.integers(0, n - 1))] = base
    return [f32(x) for x in c]


@st.composite
def band_shift(draw, d, z_margin=1e-3):
    """A band shift keeping rest-frame bands inside the redshift range (0 half of the time)."""
    if draw(st.booleans()):
        return 0.
    lo, hi = f32(d["z"][0]), f32(d["z"][1])
    b = lo + (hi - lo) * draw(lin(0.01, 0.99, 200))
    return f32(b)


@st.composite
def fluxes(draw, n):
    """Positive, zero and negative fluxes and inverse variances for n bands."""
    base = draw(st.sampled_from([1e-9, 1e-7, 1e-12, 1e-9, 1e-7, 1e-12, 1e-16, 1e-2, 10.]))
    f, iv = [], []
    for _ in range(n):
        s = draw(st.sampled_from([1, 1, 1, 1, -1, 0]))
        v = draw(lg(0.01, 100., 60)) * base
        e = draw(lg(0.003, 3., 40)) * base
        t = draw(st.sampled_from([1, 1, 1, 1, 0, -1]))
        f.append(f32(s * v))
        iv.append(f32(t / e**2))
    return f, iv


@st.composite
def objects(draw, d, n=(1, 6), positive=True, allzero=1, dist=None):
    """A list of objects: redshift, fluxes, inverse variances, coefficients, distance."""
    out = []
    nb = len(d["b"])
    for _ in range(draw(st.integers(*n))):
        f, iv = draw(fluxes(nb))
        if 0. in iv and draw(st.integers(0, 2)) == 0:
            # fluxes of bands that were not measured
            f = [float("nan") if w == 0. else x for x, w in zip(f, iv)]
        out.append(dict(z=draw(redshift(d, positive=positive)), f=f, iv=iv, c=draw(coeffs(d, allzero=allzero)),
                        D=f32(draw(DISTS))))
    same_redshift(draw, out)
    crowded(draw, d, out)
    return out


def crowded(draw, d, out):
    """Now and then arrays are made of many repetitions of the objects, or of as many
    as there are bands or templates (see crowd)."""
    if not draw(st.integers(0, 8)):
        n = draw(st.one_of(st.sampled_from([len(d["b"]), ntmpl(d), len(d.get("out", d["b"])), d["nz"]]),
                           st.sampled_from([8, 10, 16, 20, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257])))
        out[0]["rep"] = [min(n, 300), draw(st.integers(0, 99))]


def crowd(objs):
    """Which of the objects an array call is made for, in which order."""
    n = len(objs)
    if "rep" not in objs[0]:
        return list(range(n))
    m, s = objs[0]["rep"]
    i = np.arange(m)
    return ((i * 7919 + s + i // 3) % n).tolist()


def same_redshift(draw, objs, m=7):
    """Now and then all objects at one redshift, as those of a cluster."""
    if len(objs) < 2 or draw(st.integers(0, m - 1)):
        return False
    for o in objs:
        o["z"] = objs[0]["z"]
    return True


def col(objs, key):
    return [o[key] for o in objs]


DISTS = st.one_of(lg(1e-5, 5000., 80), lg(1e-5, 5000., 80), lg(1e-7, 1e6, 80))

CONTAINERS = ["f4", "f8", "list", "tuple", "be4", "be8", "nc", "F", "ro", "col", "neg", "ld", "field", "rows"]


def wrap(x, kind="f4"):
    """The values of x (single precision) in one of the accepted containers."""
    a = np.array(x, dtype=np.float32)
    if kind == "f8":
        return a.astype(np.float64)
    if kind == "list":
        return a.astype(np.float64).tolist()
    if kind == "tuple":
        def tup(v):
            return tuple(tup(u) for u in v) if isinstance(v, list) else v
        return tup(a.astype(np.float64).tolist())
    if kind == "be4":
        return a.astype(">f4")
    if kind == "be8":
        return a.astype(">f8")
    if kind == "nc":
        if a.ndim == 0:
            return a
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=np.float32)
        b[..., ::2] = a
        return b[..., ::2]
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "col" and a.ndim:
        import astropy.table
        return astropy.table.Table(dict(x=a))["x"]
    if kind == "ma":
        return np.ma.masked_array(a)
    if kind == "neg" and a.ndim:
        return a[::-1].copy()[::-1]
    if kind == "ld":
        return a.astype(np.longdouble)
    if kind == "obj":
        return a.astype(np.float64).astype(object)
    if kind == "field" and a.ndim:
        # a column of a catalogue
        b = np.zeros(len(a), dtype=[("id", "i2"), ("x", ">f4", a.shape[1:]), ("flag", "b")])
        b["x"] = a
        return b["x"]
    if kind == "rows" and a.ndim:
        return list(a)
    if kind == "ro":
        a.setflags(write=False)
        return a
    return a


def zwrap(z, kind="f4"):
    """Scalar redshift in an accepted form."""
    if kind in ("f8", "be8"):
        return np.float64(z)
    if kind in ("list", "tuple"):
        return float(z)
    return np.float32(z)
