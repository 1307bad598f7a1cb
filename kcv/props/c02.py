"""C02: bandpass descriptors."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def s_gen(draw):
    r = draw(st.one_of(gen.pts_resp(300., 100000., nmax=24, unsorted=True), gen.gauss_resp(300., 100000.),
                       gen.pts_resp(nmax=6, unsorted=True)))
    n = len(r["w"]) if r["k"] == "pts" else r["n"]
    return dict(r=r, dt=draw(st.sampled_from(gen.RESP_TYPES)),
                route=draw(st.sampled_from(["arrays", "arrays", "dat", "fits"])),
                a=draw(st.sampled_from([1e-3, 0.37, 12., 1e4])), s=draw(st.sampled_from([0.5, 3., 11.7])),
                p=draw(st.permutations(list(range(n)))) if n <= 8 else list(range(n))[::-1],
                x=[draw(gen.lin(-0.2, 1.2)) for _ in range(4)])


def descriptors(ctx, what, R, c, eps):
    """Checks R against the reference curve c."""
    ctx.close(what + ": wave", R.wave, c.w, rtol=1e-12 if eps < 1e-8 else 1e-7)
    ctx.close(what + ": response", R.response, c.r, rtol=1e-12 if eps < 1e-8 else 1e-7, atol=1e-300)
    ctx.expect(int(R.nwave) == len(c.w), "%s: nwave %s for %d samples" % (what, R.nwave, len(c.w)))
    ctx.close(what + ": lambda_eff", R.lambda_eff, c.lambda_eff(), rtol=max(eps, 1e-9))
    half_max(ctx, what, R, c, eps)
    # the interpolator reproduces the samples and is zero outside of them
    mx = np.abs(c.r).max()
    ctx.close(what + ": interp at the samples", R.interp(np.asarray(R.wave)), c.r, rtol=0, atol=1e-6 * mx)
    w = c.w[-1] - c.w[0]
    ctx.same(what + ": interp outside", R.interp(np.array([c.w[0] - 0.01 * w, c.w[-1] + 0.01 * w])), [0., 0.])


def half_max(ctx, what, R, c, eps):
    peak = c.r.max()
    low, high, fwhm = float(R.fwhm_low), float(R.fwhm_high), float(R.fwhm)
    rel = c.r / peak
    strong = np.flatnonzero(rel > 0.5 + 1e-6)
    weak = np.flatnonzero(rel > 0.5 - 1e-6)     # samples at half maximum may count either way

    def root(v, a, b):
        """v is a half-maximum point of the curve between samples a and b"""
        tol = 1e-5 * (c.w[b] - c.w[a]) + 1e-6 * c.w[b] * (eps > 1e-8) + 1e-9 * c.w[b]
        if not (c.w[a] - tol <= v <= c.w[b] + tol):
            return False
        y = c.f(np.clip([v - tol, v, v + tol], c.w[0], c.w[-1])) / peak - 0.5
        return y.min() <= 2e-6 and y.max() >= -2e-6
    okl = any(abs(low - c.w[0]) <= 1e-6 * c.w[0] if i == 0 else root(low, i - 1, i)
              for i in weak[weak <= strong[0]])
    last = len(c.w) - 1
    okh = any(abs(high - c.w[-1]) <= 1e-6 * c.w[-1] if j == last else root(high, j, j + 1)
              for j in weak[weak >= strong[-1]])
    up = strong
    ctx.expect(okl and okh, lambda: "%s: fwhm_low %r / fwhm_high %r are not where the curve first rises through and last "
               "falls through half of its peak (samples %s, %s)" % (what, low, high, c.w[up[0]], c.w[up[-1]]))
    ctx.close(what + ": fwhm", fwhm, high - low, rtol=1e-9, atol=2e-7 * high)


@sub("C02", "generated", s_gen, 1200, 60000,
     rule="curve with at least two samples above half maximum or an asymmetric / multi-peaked shape")
def generated(case, ctx):
    import kcorrect.response as kr
    w, r = gen.resp_arrays(case["r"])
    wr = gen.resp_cast(w, r, case["dt"])
    if wr is None:
        return
    w, r = wr
    c = ref.Curve(w, r)
    eps = 1e-5 if case["dt"] == "f4" else 1e-9
    up = np.flatnonzero(c.r > 0.5 * c.r.max())
    ctx.label(case["route"], case["dt"], "gap in upper half" if np.any(np.diff(up) > 1) else "contiguous upper half",
              "truncated" if up[0] == 0 or up[-1] == len(c.w) - 1 else "both half-maxima inside",
              "unsorted" if np.any(np.diff(w.astype(float)) < 0) else "sorted")
    ctx.nt(len(up) > 1 or len(c.w) > 4)
    if case["route"] == "dat":
        path = os.path.join(gen.scratch("c02"), "b%d.dat" % os.getpid())
        gen.write_dat(path, w, r)
        R = ctx.call("Response(filename)", kr.Response, filename=path)
        os.unlink(path)
    elif case["route"] == "fits":
        path = os.path.join(gen.scratch("c02"), "b%d.fits" % os.getpid())
        import astropy.io.fits as fits
        row = np.zeros(1, dtype=[("wave", w.dtype, len(w)), ("response", r.dtype, len(w))])
        row["wave"], row["response"] = w, r
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(row)]).writeto(path, overwrite=True)
        R = kr.Response()
        ctx.call("fromfits", R.fromfits, path)
    else:
        R = ctx.call("Response(wave, response)", kr.Response, wave=w, response=r)
    descriptors(ctx, case["route"], R, c, eps)
    x = c.w[0] + (c.w[-1] - c.w[0]) * np.array(case["x"])
    ctx.close("interp between samples", R.interp(x), c.f(x), rtol=0, atol=1e-5 * np.abs(c.r).max())
    # order, normalisation, wavelength scaling
    e = max(eps, 1e-8)
    R2 = ctx.call("Response(permuted)", kr.Response, wave=w[case["p"]], response=r[case["p"]])
    descriptors(ctx, "permuted", R2, c, eps)
    R3 = ctx.call("Response(renormalised)", kr.Response, wave=w, response=(r * case["a"]).astype(r.dtype))
    half_max(ctx, "renormalised", R3, ref.Curve(w, (r * case["a"]).astype(r.dtype)), eps)
    ctx.close("lambda_eff after renormalisation", R3.lambda_eff, R.lambda_eff, rtol=e)
    s, wt = case["s"], r.dtype if case["dt"] == "i" else w.dtype
    R4 = ctx.call("Response(rescaled)", kr.Response, wave=(w * s).astype(wt), response=r)
    ctx.close("lambda_eff after scaling the wavelengths", R4.lambda_eff, R.lambda_eff * s, rtol=2 * e)
    half_max(ctx, "rescaled", R4, ref.Curve((w * s).astype(wt), r), eps)


@sub("C02", "bundled", lambda: st.sampled_from(gen.bundled()).map(lambda n: dict(n=n)), 330, 700,
     rule="a bundled bandpass")
def bundled(case, ctx):
    import kcorrect.response as kr
    n = case["n"]
    f = kr.ResponseDict()
    ctx.call("load_response(%s)" % n, f.load_response, n)
    descriptors(ctx, n, f[n], gen.curve_of_file(n), 1e-9)
    ctx.nt()
