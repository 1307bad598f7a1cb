"""C18: derived quantities are the coefficient-weighted template properties."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

RATIOS = ("metallicity", "b50", "b300", "b1000")
KEYS = {"mremain", "intsfh", "mtol"} | set(RATIOS)


@st.composite
def case_(draw, **kw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 6), nz=(2, 6), **kw))
    return dict(d=d, o=draw(gen.objects(d, allzero=2)), b=draw(gen.band_shift(d)), dist=draw(st.booleans()),
                w=draw(st.sampled_from(gen.CONTAINERS)), arr=draw(st.booleans()), s=draw(st.sampled_from([.25, 1024., 3.])))


def judge(ctx, what, got, q):
    ctx.expect(isinstance(got, dict) and KEYS <= set(got), lambda: "%s: returned %r" % (what, sorted(got)))
    for nm in ("mremain", "intsfh"):
        ctx.close("%s[%s]" % (what, nm), got[nm], q[nm], rtol=q["dtol"] + 3e-5, atol=1e-37)
    for nm in RATIOS:
        ctx.close("%s[%s]" % (what, nm), got[nm], q[nm], rtol=3e-5, atol=1e-30)
    g = np.asarray(got["mtol"], float)
    ctx.expect(g.shape == np.shape(q["mtol"]), lambda: "%s[mtol]: shape %s, expected %s" % (what, g.shape, np.shape(q["mtol"])))
    tol = q["mtol_tol"] + 3 * q["dtol"] * np.abs(q["mtol"])
    ok = np.isfinite(tol) & (np.abs(q["mtol"]) < 1e37)
    # (infinite only for fluxes which are rounding noise)
    ctx.expect(not np.isnan(g).any() and np.isfinite(g[ok]).all(), lambda: "%s[mtol]: %s" % (what, g.tolist()))
    ctx.within(what + "[mtol]", np.where(ok, g, 0), np.where(ok, q["mtol"], 0), np.where(ok, tol, 1))
    return ok & (q["mtol"] > 0)


@sub("C18", "definition", case_, 700, 20000, rule="nonzero coefficients on at least two templates, or an all-zero object")
def definition(case, ctx):
    d = case["d"]
    B = gen.build(d, ctx)
    k, m, w = B.k, B.m, case["w"]
    qs = []
    for o in case["o"]:
        D = o["D"] if case["dist"] else None
        q = m.derived(o["z"], o["c"], case["b"], D)
        qs.append(q)
        kw = dict(distance=gen.zwrap(D, w)) if case["dist"] else {}
        if case["b"]:
            kw["band_shift"] = case["b"]
        what = "derived(z=%r)" % o["z"]
        got = ctx.call(what, k.derived, redshift=gen.zwrap(o["z"], w), coeffs=gen.wrap(o["c"], w), **kw)
        ok = judge(ctx, what, got, q)
        ctx.nt(sum(x > 0 for x in o["c"]) > 1 or not any(o["c"]))
        ctx.label("band shift" if case["b"] else "no band shift", "own output bands" if "out" in d else "default output bands",
                  "distance" if case["dist"] else "cosmology", "all-zero coefficients" if not any(o["c"]) else "coefficients",
                  d["t"]["k"])
        if any(s is None for s, _ in m.solar):
            ctx.label("band without solar magnitude" + ("" if ok.any() else ", undetermined"))
        if not any(o["c"]):
            for nm in KEYS:
                ctx.expect(not np.any(got[nm]), lambda: "%s[%s] = %s for all-zero coefficients" % (what, nm, got[nm]))
            continue
        c2 = np.float32(o["c"]) * np.float32(case["s"])
        g2 = ctx.call(what, k.derived, redshift=np.float32(o["z"]), coeffs=c2, **kw)
        for nm in ("mremain", "intsfh"):
            ctx.close("%s[%s], coefficients times %g" % (what, nm, case["s"]), g2[nm], np.asarray(got[nm], float) * case["s"],
                      rtol=1e-5)
        for nm in RATIOS:
            ctx.close("%s[%s], coefficients times %g" % (what, nm, case["s"]), g2[nm], np.asarray(got[nm], float), rtol=1e-5)
        a, b = np.asarray(got["mtol"], float), np.asarray(g2["mtol"], float)
        tol = q["mtol_tol"]
        ok = np.isfinite(tol)
        ctx.within("%s[mtol], coefficients times %g" % (what, case["s"]), np.where(ok, b, 0), np.where(ok, a, 0), np.where(ok, tol, 1))
    if case["arr"]:
        ix = gen.crowd(case["o"])
        os_, qs = [case["o"][i] for i in ix], [qs[i] for i in ix]
        kw = dict(distance=gen.wrap(col(os_, "D"), w)) if case["dist"] else {}
        got = ctx.call("derived(array)", k.derived, redshift=gen.wrap(col(os_, "z"), w),
                       coeffs=gen.wrap(col(os_, "c"), w), band_shift=case["b"], **kw)
        for nm in KEYS:
            ctx.expect(len(np.atleast_1d(got[nm])) == len(qs), "derived(array)[%s]: shape %s" % (nm, np.shape(got[nm])))
        for i, q in enumerate(qs):
            judge(ctx, "derived(array) object %d" % i, {nm: np.asarray(got[nm])[i] for nm in KEYS}, q)
        ctx.label("array")


BLUE = [dict(k="g", c=250., s=20., n=12, e=4., a=1.), dict(k="pts", w=[90., 95., 100., 105., 110., 120.], r=[0., .5, 1., 1., .5, 0.], a=1.),
        dict(k="g", c=2e6, s=2e4, n=12, e=2.5, a=1.)]


@st.composite
def blue_(draw):
    """Output bands outside of the solar model (no solar magnitude)."""
    d = draw(gen.config(nb=(1, 3), nsed=(1, 4), nz=(2, 4), out=False, real=False))
    n = len(d["b"])
    m = draw(st.integers(1, 3))
    d["out"] = [draw(st.one_of(st.sampled_from(BLUE), gen.resp_any(1500., 20000.))) for _ in range(m)]
    d["out"][draw(st.integers(0, m - 1))] = draw(st.sampled_from(BLUE))
    d["map"] = [draw(st.integers(0, n - 1)) for _ in range(m)]
    d["t"]["lo"], d["t"]["hi"] = 60., 3e6
    return dict(d=d, o=draw(gen.objects(d, allzero=1, n=(1, 3))), b=0., dist=draw(st.booleans()), w="f4",
                arr=draw(st.booleans()), s=3.)


@sub("C18", "nosolar", blue_, 160, 5000, rule="as for definition, with an output band that has no solar magnitude")
def nosolar(case, ctx):
    definition(case, ctx)
