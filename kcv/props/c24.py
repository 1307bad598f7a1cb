"""C24: survey classes equal the general class fed with AB-calibrated inputs."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

BANDS = dict(KcorrectSDSS=["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"],
             KcorrectGST=["galex_FUV", "galex_NUV", "sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0",
                          "twomass_J", "twomass_H", "twomass_Ks"])
# the surveys with other bands around those which are calibrated
BANDS["KcorrectGST:7"] = BANDS["KcorrectGST"][:7]
BANDS["KcorrectGST:9"] = ["galex_NUV", "galex_FUV"] + BANDS["KcorrectGST"][2:8] + ["wise_w1"]
BANDS["KcorrectSDSS:bands"] = BANDS["KcorrectSDSS"]
# output bands of the objects: default; survey to other bands, by a map
OUTS = [dict(), dict(responses_out=["bessell_B", "sdss_z0", "sdss_u0"], responses_map=["sdss_g0", "sdss_z0", "sdss_g0"])]
_K = {}


def pair(cls, ab, out):
    """(survey object, general object with the same bands)."""
    import kcorrect.kcorrect as kk
    key = (cls, ab, out)
    if key not in _K:
        a = dict(redshift_range=[0., 1.], nredshift=6, **OUTS[out])
        own = dict(responses=list(BANDS[cls])) if ":" in cls else {}
        _K[key] = getattr(kk, cls.split(":")[0])(abcorrect=ab, **a, **own)
        g = ("general", cls, out)
        if g not in _K:
            _K[g] = kk.Kcorrect(responses=list(BANDS[cls]), **a)
    return _K[key], _K["general", cls, out]


@st.composite
def case_(draw):
    cls = draw(st.sampled_from(sorted(BANDS) + ["KcorrectGST", "KcorrectSDSS"]))
    nb = len(BANDS[cls])
    n = draw(st.integers(1, 4))
    o = []
    for _ in range(n):
        # fluxes of a mixture of the templates with deviations, or arbitrary ones
        x = dict(z=draw(gen.lin(.02, .95)), c=[draw(st.one_of(st.just(0.), gen.lg(.01, 10, 40))) * 1e-5 for _ in range(5)],
                 e=[draw(st.sampled_from([0., .02, -.03, .1, -.2, .5])) for _ in range(nb)],
                 sn=[draw(st.one_of(gen.lg(3, 300, 40), gen.lg(3, 300, 40), st.just(0.))) for _ in range(nb)])
        if draw(st.integers(0, 3)) == 0:
            x["neg"] = draw(st.integers(0, nb - 1))
        x["d"] = draw(gen.lg(50, 5000, 40))
        o.append(x)
    return dict(cls=cls, ab=draw(st.sampled_from([True, True, True, False])), o=o, arr=draw(st.booleans()),
                out=draw(st.integers(0, 1)), b=draw(st.sampled_from([0., 0., .1])), dist=draw(st.booleans()),
                opt=draw(st.integers(0, 7)), w=draw(st.sampled_from(["f4", "f8", "nc", "ro", "F", "be8"])))


def inputs(case, g):
    """Raw survey fluxes and weights."""
    fs, ivs = [], []
    for o in case["o"]:
        c = np.float32(o["c"]) if any(o["c"]) else np.float32([0, 0, 1e-5, 0, 0])
        f = np.asarray(g.reconstruct(redshift=np.float32(o["z"]), coeffs=c), float)
        scale = np.maximum(f, 1e-4 * f.max())
        f = scale * (1. + np.array(o["e"]))
        if "neg" in o:
            f[o["neg"]] *= -1.
        fs.append(f), ivs.append((np.array(o["sn"]) / scale)**2)
    return np.float32(fs), np.float32(ivs)


def calibrated(cls, ab, f, iv):
    f, iv = np.array(f, float), np.array(iv, float)
    if ab:
        s = slice(2, 7) if cls.startswith("KcorrectGST") else slice(None)
        f[..., s], iv[..., s] = ref.sdss_ab(f[..., s], iv[..., s])
    return np.float32(f), np.float32(iv)


def same_fit(ctx, what, g, z, f, iv, got, want):
    """The coefficients of two fits of nearly the same numbers: the weighted model
    fluxes are compared (those are unique; projection is nonexpansive)."""
    ctx.expect(np.shape(got) == np.shape(want), lambda: "%s: shape %s, expected %s" % (what, np.shape(got), np.shape(want)))
    w = np.sqrt(np.asarray(iv, float))
    a = w * np.asarray(g.reconstruct(redshift=z, coeffs=got), float)
    b = w * np.asarray(g.reconstruct(redshift=z, coeffs=want), float)
    nb = np.sqrt(((w * np.asarray(f, float))**2).sum(-1, keepdims=True))
    ctx.within(what + ": weighted model fluxes", a, b, 1e-4 * np.broadcast_to(nb, a.shape) + 1e-30)


@sub("C24", "calibration", case_, 560, 15000,
     rule="AB correction on, and at least one weighted SDSS band")
def calibration(case, ctx):
    cls, ab = case["cls"], case["ab"]
    k, g = ctx.call("construction", pair, cls, ab, case["out"])
    F, IV = inputs(case, g)
    CF, CIV = calibrated(cls, ab, F, IV)
    Z, D, C = np.float32(col(case["o"], "z")), np.float32(col(case["o"], "d")), np.float32(col(case["o"], "c"))
    if not case["arr"]:
        F, IV, CF, CIV, Z, D, C = (x[0] for x in (F, IV, CF, CIV, Z, D, C))
    s = slice(2, 7) if cls.startswith("KcorrectGST") else slice(None)
    ctx.nt(ab and bool(np.any(IV[..., s])))
    ctx.label(cls, "AB correction" if ab else "no AB correction", "array" if case["arr"] else "scalar",
              "own output bands" if case["out"] else "default output bands")
    w = case["w"]
    z = gen.wrap(Z, w) if case["arr"] else gen.zwrap(float(Z), w)
    got = ctx.call(cls + ".fit_coeffs", k.fit_coeffs, redshift=z, maggies=gen.wrap(F, w), ivar=gen.wrap(IV, w))
    want = ctx.call("Kcorrect.fit_coeffs", g.fit_coeffs, redshift=Z, maggies=CF, ivar=CIV)
    same_fit(ctx, cls + ".fit_coeffs", g, Z, CF, CIV, got, want)
    # absolute magnitudes
    opt = case["opt"]
    kw = dict(band_shift=case["b"])
    if case["dist"]:
        kw["distance"] = D
    names = [n for i, n in enumerate(("reconstruct", "limit", "kcorrect")) if opt & (1 << i)]
    kw.update({n: True for n in names})
    a = ctx.call(cls + ".absmag", k.absmag, redshift=Z, maggies=gen.wrap(F, w), ivar=gen.wrap(IV, w), coeffs=C, **kw)
    b = ctx.call("Kcorrect.absmag", g.absmag, redshift=Z, maggies=CF, ivar=CIV, coeffs=C, **kw)
    if not names:
        a, b = (a,), (b,)
    ctx.expect(len(a) == len(b), "%s.absmag: %d outputs" % (cls, len(a)))
    for n, x, y in zip(["absmag"] + names, a, b):
        x, y = np.asarray(x, float), np.asarray(y, float)
        ctx.expect(x.shape == y.shape, "%s.absmag: shape %s of %s" % (cls, x.shape, n))
        ctx.expect(np.array_equal(x == -9999., y == -9999.), "%s.absmag: %s undefined elsewhere" % (cls, n))
        ok = (y != -9999.) & np.isfinite(y)
        ctx.within("%s.absmag: %s" % (cls, n), np.where(ok, x, 0), np.where(ok, y, 0), 2e-5)
    # the calibration itself, with and without inverse variances
    if ab:
        r = ctx.call("to_ab", k.to_ab, maggies=gen.wrap(F, w), ivar=gen.wrap(IV, w))
        ctx.expect(isinstance(r, tuple) and len(r) == 2, "to_ab with ivar does not return a pair")
        ctx.close("to_ab maggies", r[0], CF, rtol=2e-6)
        ctx.close("to_ab ivar", r[1], CIV, rtol=4e-6)
        r = ctx.call("to_ab", k.to_ab, maggies=gen.wrap(F, w))
        ctx.expect(not isinstance(r, tuple), "to_ab without ivar returns a tuple")
        ctx.close("to_ab maggies alone", r, CF, rtol=2e-6)


@st.composite
def asinh_(draw):
    c = draw(case_())
    c["cls"] = "KcorrectSDSS"
    for o in c["o"]:
        for key in ("e", "sn"):
            o[key] = o[key][:5]
        if o.get("neg", 0) > 4:
            o.pop("neg")
        o["m"] = [draw(st.one_of(gen.lin(14, 26, 240), gen.lin(14, 20, 100))) for _ in range(5)]
        o["me"] = [draw(gen.lg(.005, 2, 40)) for _ in range(5)]
        o["x"] = [draw(st.one_of(st.just(0.), gen.lin(0, 1.5, 60))) for _ in range(5)]
    c["ext"] = draw(st.sampled_from([True, True, False]))
    return c


@sub("C24", "asinh", asinh_, 400, 12000, rule="AB correction on")
def asinh(case, ctx):
    """Fitting asinh magnitudes is converting, calibrating, and fitting."""
    k, g = ctx.call("construction", pair, "KcorrectSDSS", case["ab"], case["out"])
    o = case["o"] if case["arr"] else case["o"][:1]
    M, E, X, Z = (np.float32(col(o, key)) for key in ("m", "me", "x", "z"))
    if not case["arr"]:
        M, E, X, Z = M[0], E[0], X[0], Z[0]
    ctx.nt(case["ab"])
    ctx.label("extinction" if case["ext"] else "no extinction", "array" if case["arr"] else "scalar")
    f, iv = ref.asinh_to_maggies(M, E, X if case["ext"] else None)
    CF, CIV = calibrated("KcorrectSDSS", case["ab"], np.float32(f), np.float32(iv))
    w = case["w"]
    kw = dict(extinction=gen.wrap(X, w)) if case["ext"] else {}
    z = gen.wrap(Z, w) if case["arr"] else gen.zwrap(float(Z), w)
    got = ctx.call("fit_coeffs_asinh", k.fit_coeffs_asinh, redshift=z, mag=gen.wrap(M, w), mag_err=gen.wrap(E, w), **kw)
    want = ctx.call("Kcorrect.fit_coeffs", g.fit_coeffs, redshift=Z, maggies=CF, ivar=CIV)
    same_fit(ctx, "fit_coeffs_asinh", g, Z, CF, CIV, got, want)


@st.composite
def subclass_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 4), nz=(2, 8)))
    nb = len(d["b"])
    return dict(d=d, o=draw(gen.objects(d, n=(1, 4))), ab=draw(st.sampled_from([1, 1, 1, 0])), arr=draw(st.booleans()),
                b=draw(gen.band_shift(d)), dist=draw(st.booleans()), w=draw(st.sampled_from(gen.CONTAINERS)),
                fac=[draw(st.sampled_from([1., 2., .5, 3631., .9, 1e-9, 1.05])) for _ in range(nb)],
                drop=[draw(st.sampled_from([0, 0, 0, 1])) for _ in range(nb)], mc=draw(st.sampled_from([0, 1, 3])),
                who=draw(st.sampled_from(["Kcorrect", "Kcorrect", "Fitter", "file"])), opt=draw(st.integers(0, 7)))


_SUB = {}


def subclasses():
    """Classes with their own calibration, as the survey classes have."""
    if not _SUB:
        import kcorrect.fitter as kf
        import kcorrect.kcorrect as kk

        class Calibrated(object):
            fac, drop = None, None

            def to_ab(self, maggies=None, ivar=None):
                ab = np.asarray(maggies) * self.fac
                if ivar is None:
                    return ab
                return ab, np.asarray(ivar) * self.drop / self.fac**2

        class MyKcorrect(Calibrated, kk.Kcorrect):
            pass

        class MyFitter(Calibrated, kf.Fitter):
            pass
        _SUB.update(Kcorrect=MyKcorrect, Fitter=MyFitter, file=MyKcorrect)
    return _SUB


@sub("C24", "subclass", subclass_, 320, 9000, rule="AB correction on, with a factor other than 1 or a dropped band")
def subclass(case, ctx):
    """A class with its own to_ab() equals the general class with calibrated inputs."""
    import os
    d, who, w = case["d"], case["who"], case["w"]
    B = gen.build(d, ctx)
    g = B.k
    fac, keep = np.float32(case["fac"]), np.float32(1) - np.float32(case["drop"])
    ctx.nt(case["ab"] and ((fac != 1).any() or (keep != 1).any()))
    ctx.label(who, "abcorrect" if case["ab"] else "no abcorrect", "mc" if case["mc"] else "no mc")
    cls = subclasses()[who]
    kw = dict(responses=list(g.responses), templates=g.templates, redshift_range=[float(x) for x in d["z"]],
              nredshift=d["nz"], abcorrect=bool(case["ab"]))
    if who != "Fitter":
        kw.update(responses_out=list(g.responses_out), responses_map=list(g.responses_map), cosmo=gen.cosmo_of(d))
    k = ctx.call("construction", cls, **kw)
    if who == "Fitter":
        ctx.call("set_Amatrix", k.set_Amatrix)
    elif who == "file":
        p = os.path.join(gen.scratch("c24"), "%d.fits" % os.getpid())
        k.tofits(p)
        k = ctx.call("construction from file", cls, filename=p)
        os.unlink(p)
        k.cosmo = g.cosmo
        ctx.expect(k.abcorrect == bool(case["ab"]), "abcorrect lost in the file")
    k.fac, k.drop = fac, keep
    o = [case["o"][i] for i in gen.crowd(case["o"])] if case["arr"] else case["o"][:1]
    Z, F, IV, C, D = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D"))
    CF, CIV = (np.float32(F * fac), np.float32(IV * keep / fac**2)) if case["ab"] else (F, IV)
    if not (np.isfinite(CIV).all() and (CIV[(IV > 0) & (keep > 0)] > 0).all()):
        return                                   # beyond single precision
    a = dict(z=Z, f=F, iv=IV, c=C, D=D, cf=CF, civ=CIV)
    if not case["arr"]:
        a = {x: y[0] for x, y in a.items()}
    ww = lambda x: gen.wrap(x, w) if np.ndim(x) else gen.zwrap(float(x), w)
    # fits
    pos = lambda x: np.maximum(x, np.float32(0))
    np.random.seed(case["opt"])
    got = ctx.call("fit_coeffs", k.fit_coeffs, redshift=ww(a["z"]), maggies=ww(a["f"]), ivar=ww(pos(a["iv"])), mc=case["mc"])
    np.random.seed(case["opt"])
    want = ctx.call("Kcorrect.fit_coeffs", g.fit_coeffs, redshift=a["z"], maggies=a["cf"], ivar=pos(a["civ"]), mc=case["mc"])
    if not case["mc"]:
        got, want = (got,), (want,)
    ctx.expect(len(got) == len(want), "fit_coeffs: %d outputs" % len(got))
    same_fit(ctx, "fit_coeffs", g, a["z"], np.nan_to_num(a["cf"]), pos(a["civ"]), got[0], want[0])
    if case["mc"]:
        ctx.expect(np.shape(got[1]) == np.shape(want[1]), "coeffs_mc: shape %s" % (np.shape(got[1]),))
        x, y = np.asarray(got[2], float), np.asarray(want[2], float)
        ctx.expect(x.shape == y.shape, lambda: "maggies_mc: shape %s, expected %s" % (x.shape, y.shape))
        iv = np.asarray(pos(a["civ"]), float)[..., None]
        f = np.abs(np.asarray(a["cf"], float))[..., None]
        with np.errstate(divide="ignore"):
            tol = 1e-5 * (np.abs(y) + f + np.where(iv > 0, 1. / np.sqrt(iv), 0.)) + 1e-37
        ok = np.isfinite(y)
        ctx.expect((np.isfinite(x) == ok).all(), "maggies_mc: undefined elsewhere")
        ctx.within("maggies_mc", np.where(ok, x, 0), np.where(ok, y, 0), np.where(ok, tol, 1))
        for i in range(case["mc"]):
            same_fit(ctx, "coeffs_mc", g, a["z"], np.nan_to_num(y[..., i]), iv[..., 0], np.asarray(got[1])[..., i],
                     np.asarray(want[1])[..., i])
    if who == "Fitter":
        return
    names = [n for i, n in enumerate(("reconstruct", "limit", "kcorrect")) if case["opt"] & (1 << i)]
    kw = dict(band_shift=case["b"], **{n: True for n in names})
    ds, dw = (dict(distance=a["D"]), dict(distance=ww(a["D"]))) if case["dist"] else ({}, {})
    x = ctx.call("absmag", k.absmag, redshift=ww(a["z"]), maggies=ww(a["f"]), ivar=ww(a["iv"]), coeffs=ww(a["c"]), **kw, **dw)
    y = ctx.call("Kcorrect.absmag", g.absmag, redshift=a["z"], maggies=a["cf"], ivar=a["civ"], coeffs=a["c"], **kw, **ds)
    if not names:
        x, y = (x,), (y,)
    ctx.expect(len(x) == len(y), "absmag: %d outputs" % len(x))
    for n, p, q in zip(["absmag"] + names, x, y):
        p, q = np.asarray(p, float), np.asarray(q, float)
        ctx.expect(p.shape == q.shape, "absmag: shape %s of %s" % (p.shape, n))
        ok = (q != -9999.) & np.isfinite(q)
        ctx.expect(np.array_equal(p == -9999., q == -9999.), "absmag: %s undefined elsewhere" % n)
        ctx.within("absmag: " + n, np.where(ok, p, 0), np.where(ok, q, 0), 1e-4)
