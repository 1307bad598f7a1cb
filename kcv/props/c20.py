"""C20: Monte Carlo magnitudes and derived quantities equal the per-sample results."""
import itertools

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

KNOWN = "absmag_mc-abcorrect-applied-twice"


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 5), nz=(2, 6)))
    nb = len(d["b"])
    mc = draw(st.integers(1, 4))
    o = []
    for _ in range(draw(st.integers(1, 4))):
        s = []
        for _ in range(mc):
            f, iv = draw(gen.fluxes(nb))
            s.append(dict(f=f, c=draw(gen.coeffs(d, allzero=1))))
        o.append(dict(z=draw(gen.redshift(d, positive=True)), iv=iv, D=gen.f32(draw(gen.DISTS)), s=s))
    return dict(d=d, o=o, mc=mc, b=draw(gen.band_shift(d)), dist=draw(st.booleans()), arr=draw(st.booleans()),
                opt=draw(st.sampled_from([[0, 0], [1, 0], [0, 1], [1, 1]])), w=draw(st.sampled_from(["f4", "f4", "f8", "be4", "F", "ro"])))


def stacks(case, o):
    """Arrays of the call: [n, nb, mc] fluxes and [n, nt, mc] coefficients."""
    F = np.float32([[s["f"] for s in x["s"]] for x in o]).transpose(0, 2, 1)
    C = np.float32([[s["c"] for s in x["s"]] for x in o]).transpose(0, 2, 1)
    z, iv, D = (np.float32(col(o, x)) for x in ("z", "iv", "D"))
    if not case["arr"]:
        F, C, z, iv, D = F[0], C[0], z[0], iv[0], D[0]
    w = case["w"]
    if w != "f4":
        F, C, iv = gen.wrap(F, w), gen.wrap(C, w), gen.wrap(iv, w)
    return F, C, z, iv, D


def per_sample(ctx, k, case, F, C, z, iv, D, opt, b):
    kw = dict(distance=D) if case["dist"] else {}
    outs, ders = [], []
    for j in range(case["mc"]):
        r = ctx.call("absmag", k.absmag, redshift=z, maggies=np.float32(F[..., j]), ivar=np.float32(iv),
                     coeffs=np.float32(C[..., j]), band_shift=b, reconstruct=bool(opt[0]), kcorrect=bool(opt[1]), **kw)
        outs.append(r if isinstance(r, tuple) else (r,))
        ders.append(ctx.call("derived", k.derived, redshift=z, coeffs=np.float32(C[..., j]), band_shift=b, **kw))
    return outs, ders


def compare(ctx, what, got, want, atol=4e-6, rtol=2e-6):
    """got[..., j] against want[j]; non-finite values must agree."""
    w = np.stack([np.asarray(x, float) for x in want], axis=-1)
    g = np.asarray(got, float)
    ctx.expect(g.shape == w.shape, lambda: "%s: shape %s, expected %s" % (what, g.shape, w.shape))
    fin = np.isfinite(w)
    ctx.expect(np.array_equal(fin, np.isfinite(g)), lambda: "%s: %s, expected %s" % (what, g.tolist(), w.tolist()))
    ctx.close(what, np.where(fin, g, 0), np.where(fin, w, 0), rtol=rtol, atol=atol)


@sub("C20", "samples", case_, 700, 20000, rule="at least two samples or an array of objects")
def samples(case, ctx):
    d = case["d"]
    B = gen.build(d, ctx)
    k = B.k
    o = case["o"] if case["arr"] else case["o"][:1]
    F, C, z, iv, D = stacks(case, o)
    opt, b = case["opt"], case["b"]
    ctx.nt(case["mc"] > 1 or case["arr"])
    ctx.label("array" if case["arr"] else "scalar", "mc=1" if case["mc"] == 1 else "mc>1", "map" if "map" in d else "default map",
              "band shift" if b else "no band shift", "nb=1" if B.nb == 1 else "nb>1")
    outs, ders = per_sample(ctx, k, case, F, C, z, iv, D, opt, b)
    kw = dict(distance=D) if case["dist"] else {}
    if b:
        kw["band_shift"] = b
    o_ = {}
    if opt[0]:
        o_["reconstruct"] = True
    if opt[1]:
        o_["kcorrect"] = True
    what = "absmag_mc(%s)" % ", ".join(o_)
    r = ctx.call(what, k.absmag_mc, redshift=z, maggies_mc=F, ivar=iv, coeffs_mc=C, **kw, **o_)
    if not o_:
        ctx.expect(not isinstance(r, tuple), what + ": a tuple although no optional output was asked for")
        r = (r,)
    ctx.expect(isinstance(r, tuple) and len(r) == 1 + len(o_), lambda: what + ": %d outputs" % len(r))
    for i, nm in enumerate(["absmag"] + list(o_)):
        compare(ctx, "%s: output %s" % (what, nm), r[i], [x[i] for x in outs])
    # against the model as well
    for i, x in enumerate(o):
        for j, s in enumerate(x["s"]):
            v, t = B.m.absmag(x["z"], s["f"], x["iv"], s["c"], b, x["D"] if case["dist"] else None)["absmag"]
            g = np.asarray(r[0], float)[i, :, j] if case["arr"] else np.asarray(r[0], float)[:, j]
            ok = np.isfinite(v) & (t < .02)
            ctx.within("%s: sample %d" % (what, j), np.where(ok, g, 0), np.where(ok, v, 0), np.where(ok, t, 1))
    q = ctx.call("derived_mc", k.derived_mc, redshift=z, coeffs_mc=C, **kw)
    ctx.expect(isinstance(q, dict) and set(q) == set(ders[0]), lambda: "derived_mc returned %r" % (q.keys() if isinstance(q, dict) else type(q)))
    for nm in q:
        compare(ctx, "derived_mc[%s]" % nm, q[nm], [x[nm] for x in ders], atol=0)


@st.composite
def many_(draw):
    c = draw(case_())
    n = draw(st.one_of(st.integers(5, 40), st.sampled_from([50, 64, 100, 101, 128, 200, 256, 500, 512, 1000, 1001])))
    return dict(c=c, n=n, s=draw(st.integers(0, 1000)))


@sub("C20", "many", many_, 80, 3000, rule="at least five samples")
def many(case, ctx):
    """Any number of samples: made of a few of them, the results are theirs."""
    c, n = case["c"], case["n"]
    d, b, opt, k = c["d"], c["b"], c["opt"], gen.build(c["d"], ctx).k
    o = c["o"] if c["arr"] else c["o"][:1]
    F, C, z, iv, D = stacks(c, o)
    p = (np.arange(n) * 7 + np.arange(n) // 3 + case["s"]) % c["mc"]
    ctx.nt()
    ctx.label("n<50" if n < 50 else "n<200" if n < 200 else "n>=200")
    outs, ders = per_sample(ctx, k, c, F, C, z, iv, D, opt, b)
    kw = dict(distance=D) if c["dist"] else {}
    r = ctx.call("absmag_mc", k.absmag_mc, redshift=z, maggies_mc=F[..., p], ivar=iv, coeffs_mc=C[..., p], band_shift=b,
                 reconstruct=bool(opt[0]), kcorrect=bool(opt[1]), **kw)
    r = r if isinstance(r, tuple) else (r,)
    ctx.expect(len(r) == len(outs[0]), lambda: "absmag_mc: %d outputs" % len(r))
    for i in range(len(r)):
        compare(ctx, "absmag_mc of %d samples: output %d" % (n, i), r[i], [outs[j][i] for j in p])
    q = ctx.call("derived_mc", k.derived_mc, redshift=z, coeffs_mc=C[..., p], band_shift=b, **kw)
    for nm in ders[0]:
        compare(ctx, "derived_mc[%s] of %d samples" % (nm, n), q[nm], [ders[j][nm] for j in p], atol=0)


@st.composite
def negligible_(draw):
    d = draw(gen.config(nb=(2, 5), nsed=(1, 2), nz=(2, 6), real=False))
    o = draw(gen.objects(d, n=(1, 3), allzero=0))
    return dict(d=d, o=o, mc=draw(st.integers(1, 3)), b=draw(gen.band_shift(d)), arr=draw(st.booleans()), seed=draw(st.integers(0, 999)))


@sub("C20", "negligible", negligible_, 300, 10000, rule="an object whose fit is well determined")
def negligible(case, ctx):
    """Samples of a fit with negligible errors give the unperturbed results."""
    d, b, mc = case["d"], case["b"], case["mc"]
    B = gen.build(d, ctx)
    k, m = B.k, B.m
    o = case["o"] if case["arr"] else case["o"][:1]
    z = np.float32(col(o, "z"))
    f = np.array([m.reconstruct("in", x["z"], x["c"])[0] for x in o])
    sn = 3e4
    if (f <= sn * 1e-17).any():          # the inverse variances have to be in the single precision range
        return
    iv = (sn / f)**2
    if not case["arr"]:
        z, f, iv = z[0], f[0], iv[0]
    f, iv = np.float32(f), np.float32(iv)
    np.random.seed(case["seed"])
    c, cm, fm = ctx.call("fit_coeffs(mc)", k.fit_coeffs, redshift=z, maggies=f, ivar=iv, mc=mc)
    base = np.atleast_2d(ctx.call("absmag", k.absmag, redshift=z, maggies=f, ivar=iv, coeffs=c, band_shift=b))
    g = ctx.call("absmag_mc", k.absmag_mc, redshift=z, maggies_mc=fm, ivar=iv, coeffs_mc=cm, band_shift=b)
    g = np.asarray(g, float).reshape(base.shape + (mc,))
    q0 = ctx.call("derived", k.derived, redshift=z, coeffs=c, band_shift=b)
    q = ctx.call("derived_mc", k.derived_mc, redshift=z, coeffs_mc=cm, band_shift=b)
    for i, x in enumerate(o):
        A, _ = m.A("in", x["z"])
        Ao = m.A("out", b)[0]
        fi = A @ np.array(x["c"])
        W = A / fi[:, None]
        u = np.linalg.svd(W * np.array(x["c"]), compute_uv=False) if all(x["c"]) else np.zeros(1)
        if len(u) < len(x["c"]) or u[-1] < .05 or (Ao * np.array(x["c"]) < 0).any():
            ctx.label("fit not well determined")
            continue
        # relative change of any positive combination: |dc/c| <= noise / smallest singular value
        tol = 10. / sn * np.sqrt(B.nb) / u[-1] * 2.5 + 3e-4
        if tol > .02:
            continue
        fo, to = m.reconstruct("out", 0., x["c"], b)
        fr, tr = m.reconstruct("in", x["z"], x["c"])
        ok = (fo > 0) & (to < 1e-3 * fo) & (tr < 1e-3 * fr)[m.imap]
        for j in range(mc):
            ctx.within("absmag_mc with negligible errors", np.where(ok, g[i, :, j], 0), np.where(ok, base[i], 0), tol)
        for nm in ("mremain", "intsfh"):
            a = np.asarray(q[nm], float).reshape(len(o), mc)[i]
            ctx.close("derived_mc[%s] with negligible errors" % nm, a, np.full(mc, float(np.atleast_1d(q0[nm])[i])), rtol=tol)
        ctx.nt(ok.any())


@st.composite
def survey_(draw):
    cls = draw(st.sampled_from(["KcorrectSDSS", "KcorrectGST"]))
    nb = dict(KcorrectSDSS=5, KcorrectGST=10)[cls]
    o = []
    mc = draw(st.integers(1, 3))
    for _ in range(draw(st.integers(1, 2))):
        s = [dict(f=[gen.f32(1e-9 * draw(gen.lg(.1, 30., 40))) for _ in range(nb)], c=[gen.f32(draw(gen.lg(1e-4, 1., 20))) for _ in range(5)])
             for _ in range(mc)]
        o.append(dict(z=draw(gen.lin(.01, .9)), iv=[gen.f32(draw(st.sampled_from([1e20, 1e18, 0.]))) for _ in range(nb)],
                      D=gen.f32(draw(gen.DISTS)), s=s))
    return dict(cls=cls, o=o, mc=mc, arr=draw(st.booleans()), dist=draw(st.booleans()), ab=draw(st.sampled_from([True, True, False])),
                b=draw(st.sampled_from([0., .1])), w="f4")


@sub("C20", "survey", survey_, 200, 6000, rule="AB correction on and a weighted SDSS band")
def survey(case, ctx):
    """The Monte Carlo fluxes come from fit_coeffs() already AB-corrected."""
    from kcv.props.c11 import survey as objs_
    k = objs_(case["cls"], case["ab"])[0]
    if "gen" not in _G:
        _G["gen"] = {}
    key = (case["cls"], "general")
    if key not in _G["gen"]:
        import kcorrect.kcorrect as kk
        _G["gen"][key] = kk.Kcorrect(responses=list(k.responses), redshift_range=[0., 1.], nredshift=5)
    plain = _G["gen"][key]
    o = case["o"] if case["arr"] else case["o"][:1]
    F, C, z, iv, D = stacks(case, o)
    sl = slice(0, 5) if case["cls"] == "KcorrectSDSS" else slice(2, 7)
    # ivar is given as for fit_coeffs(), in the survey system
    iv_ab = np.array(iv, float)
    F2, iv2 = np.array(F, float), np.array(iv, float)
    if case["ab"]:
        iv_ab[..., sl] = ref.sdss_ab(np.ones(iv_ab[..., sl].shape), iv_ab[..., sl])[1]
        F2[..., sl, :] = np.moveaxis(ref.sdss_ab(np.moveaxis(F2[..., sl, :], -1, -2)), -2, -1)
        ctx.nt(bool((np.asarray(iv)[..., sl] > 0).any()))
    ctx.label(case["cls"], "AB correction" if case["ab"] else "no AB correction")
    kw = dict(distance=D) if case["dist"] else {}
    r = ctx.call("absmag_mc", k.absmag_mc, redshift=z, maggies_mc=F, ivar=iv, coeffs_mc=C, band_shift=case["b"],
                 reconstruct=True, kcorrect=True, **kw)
    want = ctx.call("absmag_mc", plain.absmag_mc, redshift=z, maggies_mc=F, ivar=np.float32(iv_ab), coeffs_mc=C,
                    band_shift=case["b"], reconstruct=True, kcorrect=True, **kw)
    twice = ctx.call("absmag_mc", plain.absmag_mc, redshift=z, maggies_mc=np.float32(F2), ivar=np.float32(iv_ab),
                     coeffs_mc=C, band_shift=case["b"], **kw)
    for i, nm in ((1, "reconstruct"), (2, "kcorrect")):
        ctx.close("absmag_mc output %s with AB correction %s" % (nm, case["ab"]), r[i], np.asarray(want[i], float), atol=1e-5)
    a, w, t = (np.asarray(x, float) for x in (r[0], want[0], twice))
    if not case["ab"]:
        ctx.close("absmag_mc without AB correction", a, w, atol=1e-5)
        return
    if a.shape == w.shape and np.abs(a - w).max() <= 2e-5:
        return
    if a.shape == t.shape and np.abs(a - t).max() <= 2e-5 and ctx.known_finding(KNOWN):
        ctx.label("known finding")
        return
    ctx.close("absmag_mc of the samples of fit_coeffs() with AB correction", a, w, atol=2e-5)


_G = {}
