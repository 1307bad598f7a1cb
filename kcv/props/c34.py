"""C34: results follow the brightness of a source and nothing else about its scale."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub
from kcv.gen import col

from .c10 import pos


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 5), nz=(2, 8)))
    o = draw(gen.objects(d, n=(1, 4)))
    for x in o:
        # in half of the cases the fluxes are near those of the coefficients
        x["near"] = draw(st.sampled_from([0, 0, 1]))
        x["e"] = [draw(st.sampled_from([0., .03, -.1, .3, -.6])) for _ in x["f"]]
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), s=draw(st.sampled_from([-30, -20, -14, -7, -3, -1, 1, 2, 5, 10, 17, 25])),
                arr=draw(st.booleans()), seed=draw(st.integers(0, 999)), mc=draw(st.sampled_from([0, 1, 3])),
                fl=draw(gen.lg(.003, .3, 20)), dist=draw(st.booleans()))


def fluxes(case, B):
    """Single-precision fluxes and weights of the objects, with room for the scale."""
    F, IV = [], []
    for o in [case["o"][i] for i in gen.crowd(case["o"])]:
        f, iv = np.array(o["f"]), np.array(o["iv"])
        if o["near"] and any(o["c"]):
            m = np.asarray(B.k.reconstruct(redshift=np.float32(o["z"]), coeffs=np.float32(o["c"])), float)
            sc = np.maximum(m, 1e-4 * m.max() + 1e-20)
            err = np.where(np.array(o["iv"]) > 0, .05, 0.)
            if 1. / (.05 * sc.min())**2 < 1e30:
                # (no weights that single precision cannot hold)
                f = sc * (1. + np.array(o["e"]))
                iv = np.where(err > 0, 1. / (.05 * sc)**2, iv * 0.)
        F.append(f), IV.append(iv)
    return np.float32(F), np.float32(IV)


def roomy(a, s, most=1e30):
    """a times s is neither subnormal nor infinite in single precision (nor are
    intermediate products)."""
    a = np.abs(np.asarray(a, float))
    a = a[np.isfinite(a) & (a > 0)]
    return not a.size or (1. / most < a.min() * min(s, 1.) and a.max() * max(s, 1.) < most)


def factor(e, F, IV, C=0., most=1e30):
    """2**e, or a power of two nearer to 1 which the numbers have room for."""
    while e and not (roomy(F, 2.**e, most) and roomy(IV, 2.**(-2 * e), most) and roomy(C, 2.**e, most)):
        e = int(e / 2)
    return 2.**e


@sub("C34", "brightness", case_, 520, 16000, rule="an object with a nonzero fit or a defined magnitude")
def brightness(case, ctx):
    """Every flux times s (a power of two: no rounding), every weight divided by s**2."""
    d = case["d"]
    B = gen.build(d, ctx)
    k = B.k
    F, IV = fluxes(case, B)
    o = [case["o"][i] for i in gen.crowd(case["o"])]
    Z, C, D = (np.float32(col(o, x)) for x in ("z", "c", "D"))
    if not case["arr"]:
        F, IV, Z, C, D = F[0], IV[0], Z[0], C[0], D[0]
    s = factor(case["s"], F, IV, C)
    if s == 1.:
        return
    ctx.label("brighter" if s > 1 else "fainter", "array" if case["arr"] else "scalar", "factor %g" % s)
    s4 = np.float32(s)

    def run(f, iv, c):
        r = dict(fit=k.fit_coeffs(redshift=Z, maggies=f, ivar=pos(iv)))
        if case["mc"]:
            np.random.seed(case["seed"])
            r["fit of mc"], r["coeffs_mc"], r["maggies_mc"] = k.fit_coeffs(redshift=Z, maggies=f, ivar=pos(iv), mc=case["mc"])
        kw = dict(band_shift=case["b"])
        if case["dist"]:
            kw["distance"] = D
        r["reconstruct"] = k.reconstruct(redshift=Z, coeffs=c)
        r["reconstruct_out"] = k.reconstruct_out(redshift=0 * Z, coeffs=c, band_shift=case["b"])
        r["kcorrect"] = k.kcorrect(redshift=Z, coeffs=c, band_shift=case["b"])
        r["absmag"], r["absmag reconstruct"], r["limit"] = k.absmag(redshift=Z, maggies=f, ivar=iv, coeffs=c, reconstruct=True,
                                                                  limit=True, **kw)
        for x, y in k.derived(redshift=Z, coeffs=c, **kw).items():
            r["derived " + x] = y
        return {x: np.asarray(y, float) for x, y in r.items()}
    a = ctx.call("calls", run, F, IV, C)
    b = ctx.call("calls with fluxes times %g" % s, run, F * s4, IV / s4 / s4, C * s4)
    shift = -2.5 * np.log10(s)
    ctx.nt(bool(np.any(a["fit"]) or (a["absmag"] != -9999.).any()))
    # bands in which the model flux underflows
    lost = np.zeros(a["absmag"].shape, bool)
    for v in (a["reconstruct_out"], a["reconstruct"][..., B.m.imap]):
        lost |= (v != 0) & (np.abs(v) * min(s, 1.) < 1e-33)
    for x in a:
        what, u, v = "%s at %g times the brightness" % (x, s), a[x], b[x]
        ctx.expect(u.shape == v.shape, "%s: shape %s, %s before" % (what, v.shape, u.shape))
        big = np.abs(u[np.isfinite(u)]).max() if np.isfinite(u).any() else 0.
        fin = np.isfinite(u) & np.isfinite(v) & (np.abs(u) < 1e36) & (np.abs(v) < 1e36)
        if "mag" in x and "maggies" not in x or x == "limit":
            un = u == -9999.
            ctx.expect(np.array_equal(un | lost, (v == -9999.) | lost), lambda: "%s: undefined for %s, before for %s" % (
                what, v == -9999., un))
            u, fin = u + shift, fin & ~un & ~lost
            ctx.within(what, np.where(fin, v, 0), np.where(fin, u, 0), 2e-5)
        elif x in ("kcorrect", "derived mtol", "derived metallicity", "derived b50", "derived b300", "derived b1000"):
            # (ratios of numbers that are nearly subnormal are not compared)
            ok = fin & (~lost if x in ("kcorrect", "derived mtol") else np.abs(u) > 1e-30)
            ctx.within(what, np.where(ok, v, 0), np.where(ok, u, 0), 1e-5 * np.abs(np.where(ok, u, 0)) + 3e-6 + 1e-30)
        else:
            t = 2e-5 * (np.abs(u) if "fit" not in x and "coeffs" not in x else np.maximum(np.abs(u), 1e-3 * big)) * s
            ctx.within(what, np.where(fin, v, 0), np.where(fin, u * s, 0), np.where(fin, t, 0) + 1e-36)


@st.composite
def tools_(draw):
    n = draw(st.integers(1, 5))
    nb = draw(st.integers(1, 5))
    return dict(x=[draw(gen.fluxes(nb)) for _ in range(n)], arr=draw(st.booleans()), fl=[draw(gen.lg(.003, .3, 20)) for _ in range(nb)],
                s=draw(st.sampled_from([-30, -17, -9, -2, 1, 4, 11, 20])), b=[draw(gen.resp_any()) for _ in range(nb)],
                g=draw(gen.fluxes(5)))


@sub("C34", "utilities", tools_, 500, 12000, shards=4, rule="a measured, nonzero flux")
def tools(case, ctx):
    import kcorrect.utils as ku
    F, IV = np.float32(col(case["x"], 0)), np.float32(col(case["x"], 1))
    IV = np.maximum(IV, 0)
    if not case["arr"]:
        F, IV = F[0], IV[0]
    s = factor(case["s"], F, IV)
    if s == 1.:
        return
    s4 = np.float32(s)
    names = [gen.resp_name(x) for x in case["b"]]
    import kcorrect.response as kr
    for nm in names:
        kr.ResponseDict().load_response(nm)
    G, GI = (np.float32(x) for x in case["g"])
    ctx.nt(bool((IV > 0).any() and (F != 0).any()))
    sg = factor(case["s"], G, GI, most=1e36)

    def run(q):
        f, iv = F * q, IV / q / q
        r = dict(floor=ku.error_floor(floor=case["fl"], maggies=f, ivar=iv))
        _, r["flambda"], r["flambda ivar"] = ku.maggies2flambda(maggies=f, ivar=iv, responses=names)
        g = np.float32(1.) if q == 1. else np.float32(sg)
        r["AB"], r["AB ivar"] = ku.sdss_ab_correct(maggies=G * g, ivar=GI / g / g)
        return {x: np.asarray(y, float) for x, y in r.items()}
    a, b = ctx.call("utilities", run, np.float32(1.)), ctx.call("utilities", run, s4)
    for x in a:
        f = sg if "AB" in x else s
        f = f if x in ("flambda", "AB") else f**-2
        ok = np.isfinite(a[x]) & np.isfinite(b[x]) & (np.abs(a[x]) < 1e36) & (np.abs(a[x] * f) < 1e36)
        ctx.expect(np.array_equal(np.isnan(a[x]), np.isnan(b[x])), lambda: "%s at %g times the brightness: %s, before %s" % (
            x, s, b[x].tolist(), a[x].tolist()))
        ctx.within("%s at %g times the brightness" % (x, s), np.where(ok, b[x], 0), np.where(ok, a[x] * f, 0),
                   2e-5 * np.abs(np.where(ok, a[x] * f, 0)) + 1e-36)
