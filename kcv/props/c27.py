"""C27: the low-memory mode gives the same results as the interpolating mode."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub

BIG = [999, 1000, 1001, 1002, 1003, 1500, 1999, 2000, 2001, 2500, 3000, 3001]


@st.composite
def case_(draw, big=False):
    if big:
        d = draw(gen.config(nb=(1, 2), nsed=(1, 3), nz=(2, 2), real=False, zmin_neg=False))
        d["t"]["n"] = 60
        d["t"]["rep"] = draw(st.one_of(st.sampled_from(BIG), st.integers(990, 2600)))
    else:
        d = draw(gen.config(nb=(1, 4), nsed=(1, 6), nz=(2, 8), full=draw(st.sampled_from([True, True, False])),
                            real=False, zmin_neg=False))
        if draw(st.integers(0, 2)) == 0:
            d["t"]["rep"] = draw(st.integers(1, 60))
    n = gen.ntmpl(d)
    o = []
    for _ in range(draw(st.integers(1, 3))):
        # coefficients of a few templates, those at the ends of the groups included
        pos = sorted(set(draw(st.lists(st.one_of(st.integers(0, n - 1), st.sampled_from(
            [i for i in (0, n - 1, 999, 1000, 1001, 1999, 2000) if i < n])), min_size=1, max_size=5))))
        o.append(dict(z=draw(gen.redshift(d, positive=True)), i=pos, c=[gen.f32(draw(gen.lg(.01, 10., 40))) for _ in pos],
                      e=[draw(st.sampled_from([0., .01, -.1, .5])) for _ in d["b"]],
                      sn=[draw(gen.lg(1., 100., 20)) for _ in d["b"]]))
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), order=draw(st.booleans()))


def check_mode(ctx, k, low, when):
    t = k.templates
    ctx.expect(bool(t.interpolate) == (not low), "templates.interpolate is %r %s" % (t.interpolate, when))
    if low:
        ctx.expect(t.interp is None, "the templates keep an interpolator %s in low-memory mode" % when)
    else:
        ctx.expect(callable(t.interp), "the templates have no interpolator %s" % when)


def modes(case, ctx):
    d = case["d"]
    n = gen.ntmpl(d)
    m = gen.model_of(d)
    K = {}
    import kcorrect.response as kr
    for it in ((0, 1) if case["order"] else (1, 0)):
        K[it] = ctx.call("construction", gen.make, dict(d, it=it))
        check_mode(ctx, K[it], not it, "after construction")
    low, full = K[0], K[1]
    ctx.label("%d groups" % ((n + 999) // 1000), "1 in the last group" if n % 1000 == 1 and n > 1 else "",
              "1 template" if n == 1 else "")
    zs = sorted(set([o["z"] for o in case["o"]] + [gen.f32(d["z"][0]), gen.f32(d["z"][1])]))
    for am, w in (("Amatrix", "in"), ("AmatrixOut", "out")):
        for z in zs:
            a = np.asarray(ctx.call(am, getattr(low, am), np.float32(z)), float)
            b = np.asarray(ctx.call(am, getattr(full, am), np.float32(z)), float)
            A, tol = m.A(w, z)
            ctx.within("%s(%r) of the low-memory mode" % (am, z), a, A, tol + 1e-37)
            ctx.within("%s(%r) of the two modes" % (am, z), a, b, 2 * tol + 1e-37)
            ctx.nt((np.abs(A) > 1e3 * tol).all(axis=0).sum() >= min(n, 2))
    for o in case["o"]:
        z = np.float32(o["z"])
        c = np.zeros(n, np.float32)
        c[o["i"]] = np.float32(o["c"])
        want, tol = m.reconstruct("in", o["z"], c)
        a = ctx.call("reconstruct", low.reconstruct, redshift=z, coeffs=c)
        ctx.within("reconstruct of the low-memory mode", a, want, tol + 1e-37)
        ka = ctx.call("kcorrect", low.kcorrect, redshift=z, coeffs=c, band_shift=case["b"])
        kw, tk = m.kcorrect(o["z"], c, case["b"])
        ok = np.isfinite(kw) & (tk < .02)
        ctx.within("kcorrect of the low-memory mode", np.where(ok, ka, 0), np.where(ok, kw, 0), np.where(ok, tk, 1))
        # fits: same quality (coefficients need not be unique)
        f = np.float32(want * (1 + np.array(o["e"])))
        s = np.abs(want) + 1e-30
        iv = np.float32((np.array(o["sn"]) / s)**2)
        if not (np.isfinite(f).all() and np.isfinite(iv).all() and np.any(f)):
            continue
        A, tA = m.A("in", o["z"])
        wt = np.sqrt(iv.astype(float))
        res = {}
        for it in (0, 1):
            x = ctx.call("fit_coeffs", K[it].fit_coeffs, redshift=z, maggies=f, ivar=iv)
            ctx.expect(np.shape(x) == (n,), lambda: "fit_coeffs: shape %s for %d templates" % (np.shape(x), n))
            x = np.asarray(x, float)
            ctx.expect(np.isfinite(x).all() and (x >= 0).all(), "fit_coeffs: negative or undefined coefficients")
            res[it] = np.linalg.norm(wt * (A @ x - f)), np.linalg.norm(wt * (tA @ x))
        ctx.within("residual of the fits of the two modes", res[0][0], res[1][0],
                   2 * (res[0][1] + res[1][1]) + 2e-5 * np.linalg.norm(wt * f) + 1e-30)
    # the wave/flux path of project against the interpolator path, for one band, then the state again
    R = kr.ResponseDict()[gen.resp_name(d["b"][0])]
    z = case["o"][0]["z"]
    for it in (0, 1):
        K[it].templates.set_redshift(z)
    p = ctx.call("project", R.project, wave=low.templates.wave, flux=low.templates.flux)
    q = ctx.call("project", R.project, sed=full.templates)
    v, s = m.direct(m.curves[0], float(np.float32(z)))
    if np.size(p) == n:
        ctx.within("project of wave and flux", np.reshape(p, -1), v, 2e-5 * s + 1e-37)
        ctx.within("project of an interpolated SED", np.reshape(q, -1), v, 2e-5 * s + 1e-37)
    for it in (0, 1):
        K[it].templates.set_redshift(0.)
        check_mode(ctx, K[it], not it, "after use")


sub("C27", "small", lambda: case_(), 280, 8000,
    rule="two templates (or the only one) give well determined fluxes in every band")(modes)
sub("C27", "thousands", lambda: case_(big=True), 64, 1200,
    rule="two templates give well determined fluxes in every band; 990 to 3001 templates")(modes)


_D = {}


@st.composite
def default_(draw):
    return dict(z=draw(gen.lin(.01, .5)), c=[draw(st.one_of(st.just(0.), gen.lg(.1, 10, 20))) for _ in range(5)])


@sub("C27", "default", default_, 80, 800, shards=2, rule="coefficients not all zero")
def default(case, ctx):
    """interpolate_templates=False of Kcorrect with the default templates."""
    import kcorrect.kcorrect as kk
    if not _D:
        for it in (False, True):
            _D[it] = ctx.call("construction", kk.Kcorrect, responses=["sdss_g0", "sdss_r0", "galex_NUV"],
                              redshift_range=[0., .5], nredshift=6, interpolate_templates=it)
    ctx.nt(any(case["c"]))
    for it in (False, True):
        check_mode(ctx, _D[it], not it, "(interpolate_templates=%s)" % it)
    z, c = np.float32(case["z"]), np.float32(case["c"])
    a, b = (ctx.call("reconstruct", _D[it].reconstruct, redshift=z, coeffs=c) for it in (False, True))
    ctx.close("reconstruct of the two modes", a, np.asarray(b, float), rtol=2e-5)
    a, b = (ctx.call("kcorrect", _D[it].kcorrect, redshift=z, coeffs=c) for it in (False, True))
    ctx.within("kcorrect of the two modes", a, np.asarray(b, float), 1e-4)
