"""C19: Monte Carlo fits perturb by the stated errors and refit each sample."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col
from kcv.props.c08 import Exhausted, optimal
from kcv.props.c10 import fits_same


@st.composite
def objs(draw, d, n):
    out = []
    nb = len(d["b"])
    for _ in range(draw(st.integers(*n))):
        z = draw(gen.redshift(d))
        if draw(st.integers(0, 7)) == 0:
            z = gen.f32(d["z"][1] * 1.2 + .1)
        s = draw(st.sampled_from([1e-9, 1e-7, 1e-11]))
        f = [gen.f32(s * draw(st.sampled_from([1, 1, 1, -.3, 0])) * draw(gen.lg(.1, 10., 40))) for _ in range(nb)]
        sn = [draw(st.one_of(gen.lg(.5, 3000., 40), gen.lg(.5, 3000., 40), st.just(0.))) for _ in range(nb)]
        iv = [gen.f32((a / (abs(b) + .2 * s))**2) for a, b in zip(sn, f)]
        if 0. in iv and draw(st.integers(0, 2)) == 0:
            f = [float("nan") if w == 0. else x for x, w in zip(f, iv)]
        out.append(dict(z=z, f=f, iv=iv))
    return out


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 4), nz=(2, 6), out=False))
    return dict(d=d, o=draw(objs(d, (1, 4))), mc=draw(st.one_of([st.integers(1, 6)] * 9 + [st.sampled_from([10, 20, 33, 64, 100])])), arr=draw(st.booleans()),
                seed=draw(st.integers(0, 2**31)), w=draw(st.sampled_from(gen.CONTAINERS)),
                out=draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=1, max_size=4))))


def inputs(case, o):
    w = case["w"]
    if case["arr"]:
        return dict(redshift=gen.wrap(col(o, "z"), w), maggies=gen.wrap(col(o, "f"), w), ivar=gen.wrap(col(o, "iv"), w))
    return dict(redshift=gen.zwrap(o[0]["z"], w), maggies=gen.wrap(o[0]["f"], w), ivar=gen.wrap(o[0]["iv"], w))


@sub("C19", "refit", case_, 560, 18000, rule="an in-range object with a weighted band, so that samples differ from the data")
def refit(case, ctx):
    d, mc = case["d"], case["mc"]
    B = gen.build(d, ctx)
    k, m = B.k, B.m
    o = case["o"] if case["arr"] else case["o"][:1]
    lead = (len(o),) if case["arr"] else ()
    what = "fit_coeffs(mc=%d%s)" % (mc, ", array of %d" % len(o) if case["arr"] else "")
    np.random.seed(case["seed"] % 2**32)
    if case.get("out"):
        # the solver runs out of iterations in some calls
        what += " with the solver out of iterations at times"
        with Exhausted(case["out"]) as ex:
            r = ctx.call(what, k.fit_coeffs, mc=mc, **inputs(case, o))
        ctx.label("retried" if ex.failed else "")
    else:
        r = ctx.call(what, k.fit_coeffs, mc=mc, **inputs(case, o))
    ctx.expect(isinstance(r, tuple) and len(r) == 3, lambda: what + ": does not return three arrays")
    for nm, got, shp in zip(("coeffs", "coeffs_mc", "maggies_mc"), r,
                            (lead + (B.nsed,), lead + (B.nsed, mc), lead + (B.nb, mc))):
        ctx.expect(np.shape(got) == shp, lambda: "%s: %s has shape %s, expected %s" % (what, nm, np.shape(got), shp))
    c, cm, fm = [np.asarray(x, float).reshape((len(o),) + np.shape(x)[len(lead):]) for x in r]
    plain = np.asarray(ctx.call("fit_coeffs", k.fit_coeffs, **inputs(case, o)), float).reshape(c.shape)
    ctx.label("array of 1" if case["arr"] and len(o) == 1 else "array" if case["arr"] else "scalar", "mc=%d" % min(mc, 3))
    for i, x in enumerate(o):
        fits_same(ctx, what + ": best fit against the fit without samples", B, x["z"], x["iv"], c[i], plain[i])
        inside = m.zmin <= x["z"] <= m.zmax
        if not inside:
            ctx.expect(not cm[i].any(), lambda: "%s: out of range object has sample coefficients %s" % (what, cm[i].tolist()))
            ctx.label("out of range")
            continue
        f, iv = np.array(x["f"]), np.array(x["iv"])
        on = iv > 0
        for j in range(mc):
            s = fm[i, :, j]
            ctx.expect(np.isfinite(s[on]).all(), lambda: "%s: sample fluxes %s" % (what, s.tolist()))
            ctx.same("%s: sample fluxes of bands with zero ivar" % what, s[~on], f[~on])
            r_ = (s[on] - f[on]) * np.sqrt(iv[on])
            ctx.expect((np.abs(r_) < 8.5).all(), lambda: "%s: a sample is %.3g sigma from the data" % (what, np.abs(r_).max()))
            tiny = 3e-7 * np.abs(f[on]) * np.sqrt(iv[on])
            ctx.expect((np.abs(r_) > 0)[tiny < 1e-5].mean() > .4 if (tiny < 1e-5).any() else True,
                       lambda: "%s: sample fluxes %s are the unperturbed ones" % (what, s.tolist()))
            optimal(ctx, "%s: sample %d" % (what, j), B, x["z"], np.float32(s), np.float32(iv), cm[i, :, j])
            ctx.nt(on.any())
        if mc > 1 and on.any():
            dup = np.abs(fm[i][on][:, 1:] - fm[i][on][:, :1]).max()
            ctx.expect(dup > 0, what + ": all samples are the same")
    # reproducible from the numpy random seed
    np.random.seed(case["seed"] % 2**32)
    again = ctx.call(what, k.fit_coeffs, mc=mc, **inputs(case, o))
    for nm, a, b in zip(("coeffs", "coeffs_mc", "maggies_mc"), again, r):
        ctx.close("%s: %s with the same numpy seed" % (what, nm), a, np.asarray(b, float), rtol=1e-6)
    ons = [np.array(x["iv"]) > 0 for x in o]
    if any(q.any() and m.zmin <= x["z"] <= m.zmax for q, x in zip(ons, o)):
        np.random.seed((case["seed"] + 1) % 2**32)
        other = ctx.call(what, k.fit_coeffs, mc=mc, **inputs(case, o))[2]
        ctx.expect(not np.array_equal(np.asarray(other, float), np.asarray(r[2], float)),
                   what + ": the same samples with another numpy seed")


@st.composite
def stat_(draw):
    d = draw(gen.config(nb=(2, 5), nsed=(1, 3), nz=(2, 4), out=False, real=False))
    n = draw(st.integers(1, 4))
    o = []
    nb = len(d["b"])
    for _ in range(n):
        s = draw(st.sampled_from([1e-9, 1e-7, 1e-11]))
        f = [gen.f32(s * draw(st.sampled_from([1, 1, -.3])) * draw(gen.lg(.1, 10., 40))) for _ in range(nb)]
        iv = [gen.f32((draw(gen.lg(.5, 300., 40)) / abs(x))**2) for x in f]
        z = draw(gen.redshift(d))
        if draw(st.integers(0, 5)) == 0:
            iv[0] = 0.
        o.append(dict(z=z, f=f, iv=iv))
    return dict(d=d, o=o, arr=draw(st.booleans()), seed=draw(st.integers(0, 2**31)), w="f4",
                mc=draw(st.sampled_from([300, 300, 600, 600, 600, 4000])))


@sub("C19", "noise", stat_, 64, 1600, rule="every case (600 to 80000 perturbations each, tests at 7 sigma or 1e-12)")
def noise(case, ctx):
    """Residuals in units of the errors are independent standard normal numbers."""
    from scipy import stats
    d, mc = case["d"], case["mc"]
    B = gen.build(d, ctx)
    o = case["o"] if case["arr"] else case["o"][:1]
    np.random.seed(case["seed"] % 2**32)
    r = ctx.call("fit_coeffs(mc=%d)" % mc, B.k.fit_coeffs, mc=mc, **inputs(case, o))
    fm = np.asarray(r[2], float).reshape(len(o), B.nb, mc)
    ctx.nt()
    series = []
    for i, x in enumerate(o):
        for j in range(B.nb):
            if x["iv"][j] > 0:
                series.append(((i, j), (fm[i, j] - x["f"][j]) * np.sqrt(x["iv"][j])))
    R = np.array([s for _, s in series])
    names = [k for k, _ in series]

    def at(v, n, what):
        ctx.expect(abs(v) * np.sqrt(n) < 7., lambda: "perturbations (%d samples): %s is %.4g, %.3g sigma from that of "
                   "independent standard normal numbers" % (n, what, v, abs(v) * np.sqrt(n)))
    for (i, j), s in zip(names, R):
        w = "object %d band %d" % (i, j)
        at(s.mean(), mc, w + ": mean")
        at((s.var() - 1) / np.sqrt(2), mc, w + ": variance - 1 (over sqrt 2)")
        at(np.corrcoef(s[1:], s[:-1])[0, 1], mc - 1, w + ": correlation of successive samples")
        # at any lag
        F = np.fft.rfft(s - s.mean(), 2 * mc)
        ac = np.fft.irfft(np.abs(F)**2)[1:mc // 2] / np.sum((s - s.mean())**2)
        q = int(np.abs(ac).argmax())
        ctx.expect(abs(ac[q]) * np.sqrt(mc) < 8., lambda: "perturbations (%d samples): %s: correlation at lag %d is %.3g"
                   % (mc, w, q + 1, ac[q]))
    # nor are means, variances and correlations nearer to the expected ones than chance has it
    C = np.corrcoef(R)[np.triu_indices(len(R), 1)] if len(R) > 1 else np.zeros(0)
    for what, v in (("means", R.mean(axis=1) * np.sqrt(mc)), ("variances", (R.var(axis=1) - 1) * np.sqrt(mc / 2.)),
                    ("correlations", C * np.sqrt(mc))):
        q = stats.chi2.cdf(np.sum(v**2), len(v)) if len(v) else 1.
        ctx.expect(q > 1e-12, lambda: "perturbations (%d samples each): the %s of all objects and bands are those expected "
                   "to within %.2g of the deviation by chance" % (mc, what, np.abs(v).max()))
    # and of the next call
    r = ctx.call("fit_coeffs(mc=%d)" % mc, B.k.fit_coeffs, mc=mc, **inputs(case, o))
    fm2 = np.asarray(r[2], float).reshape(len(o), B.nb, mc)
    for (i, j), s in zip(names, R):
        s2 = (fm2[i, j] - o[i]["f"][j]) * np.sqrt(o[i]["iv"][j])
        at(np.corrcoef(s, s2)[0, 1], mc, "object %d band %d: correlation with the next call" % (i, j))
    al = R.ravel()
    at(al.mean(), al.size, "overall mean")
    at((al.var() - 1) / np.sqrt(2), al.size, "overall variance - 1 (over sqrt 2)")
    D = stats.kstest(al, "norm").statistic
    ctx.expect(D * np.sqrt(al.size) < 3.2, lambda: "perturbations are not normally distributed (KS %.4g, %d samples)" % (D, al.size))
    for t in (.53, 1.03, 2.03, 2.53, 3.03, 3.53, 4.03):
        for side, cnt, p in (("|x| >", (np.abs(al) > t).sum(), 2 * stats.norm.sf(t)), ("x >", (al > t).sum(), stats.norm.sf(t))):
            q = min(stats.binom.cdf(cnt, al.size, p), stats.binom.sf(cnt - 1, al.size, p))
            ctx.expect(q > 1e-12, lambda: "perturbations (%d samples): %d with %s %g sigma, %.1f expected of normal numbers"
                       % (al.size, cnt, side, t, al.size * p))
    if len(R) > 1:
        C = np.corrcoef(R)
        for a in range(len(R)):
            for b in range(a):
                at(C[a, b], mc, "correlation of objects/bands %s and %s" % (names[a], names[b]))
        # shifted copies of the same numbers
        for a in range(len(R)):
            for b in range(a):
                at(np.corrcoef(R[a][1:], R[b][:-1])[0, 1], mc - 1, "lagged correlation of %s and %s" % (names[a], names[b]))
                at(np.corrcoef(R[b][1:], R[a][:-1])[0, 1], mc - 1, "lagged correlation of %s and %s" % (names[b], names[a]))


@st.composite
def sdss_(draw):
    n = draw(st.integers(1, 3))
    cls = draw(st.sampled_from(["KcorrectSDSS", "KcorrectGST"]))
    nb = dict(KcorrectSDSS=5, KcorrectGST=10)[cls]
    o = []
    for _ in range(n):
        f = [gen.f32(1e-9 * draw(gen.lg(.1, 30., 40))) for _ in range(nb)]
        iv = [gen.f32((draw(st.one_of(gen.lg(300., 3000., 40), st.just(0.))) / x)**2) for x in f]
        o.append(dict(z=draw(gen.lin(.01, .9)), f=f, iv=iv))
    return dict(cls=cls, o=o, arr=draw(st.booleans()), ab=draw(st.sampled_from([True, True, False])), w="f4",
                seed=draw(st.integers(0, 2**31)), mc=draw(st.integers(2, 5)))


@sub("C19", "survey", sdss_, 200, 6000, rule="AB correction on and a weighted SDSS band")
def survey(case, ctx):
    """With AB correction the samples scatter about the AB fluxes with the AB errors."""
    from kcv.props.c11 import survey as objs_
    k = objs_(case["cls"], case["ab"])[0]
    o = case["o"] if case["arr"] else case["o"][:1]
    np.random.seed(case["seed"] % 2**32)
    c, cm, fm = ctx.call("fit_coeffs(mc)", k.fit_coeffs, mc=case["mc"], **inputs(case, o))
    fm = np.asarray(fm, float).reshape(len(o), -1, case["mc"])
    ctx.expect(fm.shape[1] == len(o[0]["f"]), "maggies_mc has %d bands" % fm.shape[1])
    for i, x in enumerate(o):
        f, iv = np.array(x["f"]), np.array(x["iv"])
        if case["ab"]:
            sl = slice(0, 5) if case["cls"] == "KcorrectSDSS" else slice(2, 7)
            f[sl], iv[sl] = ref.sdss_ab(f[sl], iv[sl])
            ctx.nt(bool((iv[sl] > 0).any()))
        on = iv > 0
        res = (fm[i][on] - f[on][:, None]) * np.sqrt(iv[on])[:, None]
        if res.size:
            # at S/N of 300 and more a miscalibration of 1% is 3 sigma in every sample
            n = res.shape[1]
            ctx.expect((np.abs(res.mean(axis=1)) * np.sqrt(n) < 7).all() and (np.abs(res) < 7.5).all(),
                       lambda: "samples of object %d scatter about other fluxes than the AB-corrected ones (%s sigma)"
                       % (i, res.mean(axis=1).tolist()))
            at = abs(res.mean()) * np.sqrt(res.size)
            ctx.expect(at < 7, lambda: "samples of object %d are biased by %.3g sigma" % (i, at))
        ctx.close("sample fluxes of bands with zero ivar", fm[i][~on], np.repeat(f[~on][:, None], case["mc"], 1), rtol=1e-6)
