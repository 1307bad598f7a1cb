"""C01: synthetic photometry."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub

ARR = ["f4", "f8", "be4", "nc", "ro", "F", "list"]


@st.composite
def near_sed(draw, c):
    """A spectrum placed anywhere relative to band curve c, from far coarser to finer."""
    width = c.w[-1] - c.w[0]
    n = draw(st.integers(4, 40))
    place = draw(st.sampled_from(["over", "over", "over", "left", "left", "right", "right", "inside", "inside", "below", "above", "any"]))
    if place == "over":
        step, w0 = width * draw(gen.lg(0.02, 3.)), c.w[0]
        w0 = c.w[0] - step * draw(gen.lin(0, 4))
        n = max(n, int(min(60, (c.w[-1] - w0) / step + 3)))
    elif place == "inside":
        step = width * draw(gen.lin(0.05, 0.9)) / n
        w0 = c.w[0] + width * 0.05
    elif place == "left":
        step = width * draw(gen.lg(0.02, 1.))
        w0 = c.w[0] - step * (n - 2)
    elif place == "right":
        step = width * draw(gen.lg(0.02, 1.))
        w0 = c.w[0] + width * draw(gen.lin(0.05, 0.95))
    elif place == "below":
        step = width * draw(gen.lg(0.02, 1.))
        w0 = c.w[0] - step * 2 * n - width * 0.1
    elif place == "above":
        step = width * draw(gen.lg(0.02, 1.))
        w0 = c.w[-1] + width * draw(gen.lin(0.01, 2))
    else:
        w0 = draw(gen.lg(300, 50000))
        step = w0 * draw(gen.lg(0.001, 0.6))
    w0 = max(w0, 10.)
    step = max(step, w0 * 1e-4)
    ws, w = [], w0
    for _ in range(n):
        ws.append(gen.f32(w))
        w += step * draw(st.sampled_from([1., 1., 1., 0.5, 2.]))
    k = draw(st.integers(1, 3))
    amp = draw(st.one_of(gen.lg(1e-17, 1e-6, 20), gen.lg(1e-17, 1e-6, 20), st.sampled_from([1e-32, 1e-25, 1., 1e5, 1e20])))
    vals = [0., 1., 2., .5, 3., .1, 10., -1.]
    f = [[draw(st.sampled_from(vals)) for _ in range(n)] for _ in range(k)]
    return dict(k="pts", w=ws, f=f, a=amp)


@st.composite
def resp(draw):
    return draw(st.one_of(gen.gauss_resp(1000, 40000), gen.pts_resp(), gen.file_resp()))


@st.composite
def s_arrays(draw):
    r = draw(resp())
    return dict(r=r, s=draw(near_sed(gen.curve(r))), c=draw(st.sampled_from(ARR)), d1=draw(st.booleans()),
                z=draw(st.one_of(st.just(0.), gen.lin(-0.5, 4.))), o=draw(st.booleans()),
                rd=draw(st.sampled_from(gen.RESP_TYPES)))


def response(spec, dt="f8"):
    import kcorrect.response as kr
    if spec["k"] == "file":
        f = kr.ResponseDict()
        f.load_response(spec["n"])
        return f[spec["n"]], gen.curve(spec)
    w, r = gen.resp_arrays(spec)
    wr = gen.resp_cast(w, r, dt)
    w, r = gen.resp_cast(w, r, "f8") if wr is None else wr
    return kr.Response(wave=w, response=r), ref.Curve(w, r)


def classify(ctx, c, w):
    n = int(((w >= c.w[0]) & (w <= c.w[-1])).sum())
    if w[-1] < c.w[0] or w[0] > c.w[-1]:
        ctx.label("no overlap")
        return "none"
    lb = "full" if w[0] <= c.w[0] and w[-1] >= c.w[-1] else "partial"
    ctx.label(lb, "few samples in band" if n < 3 else "many samples in band")
    if n == 0:
        ctx.label("no sample in band")
    return lb


def floor(c, f):
    """AB maggies of the smallest normal single-precision flux density, or of the
    rounding errors of a cubic spline through the samples f."""
    return (3e-38 + 1e-15 * np.abs(np.atleast_2d(f).astype(float)).max(axis=1)) / ref.sed_ab(c.w[-1])


def flat(ctx, what, got, n):
    """The n values of a projection (a lone zero is accepted for no overlap)."""
    a = np.asarray(got, dtype=np.float64)
    if a.size == 1 and n > 1 and float(a.reshape(-1)[0]) == 0.:
        return np.zeros(n)
    ctx.expect(a.size == n, "%s: %d values for %d spectra" % (what, a.size, n))
    ctx.expect(a.ndim <= 1 or n == 1, "%s: shape %s for %d spectra" % (what, a.shape, n))
    return a.reshape(-1)


@sub("C01", "definition", s_arrays, 2600, 60000, rule="spectrum overlaps the band and is not all zero")
def definition(case, ctx):
    import kcorrect.template as kt
    R, c = ctx.call("Response", response, case["r"], case["rd"])
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(np.float32), f.astype(np.float32)
    if (np.diff(w) <= 0).any():
        return
    n = f.shape[0]
    z = case["z"] if case["o"] else 0.
    wz = w.astype(np.float64) * (1 + z)
    val, scale = ref.project(c, wz, f.astype(np.float64) / (1 + z), cond=True)
    if not np.isfinite(scale).all() or (c.cond() > 20):
        ctx.label("ill-conditioned band")
        return
    cl = classify(ctx, c, wz)
    ctx.nt(cl != "none" and np.any(f != 0))
    if case["o"]:
        ctx.label("SED object")
        s = ctx.call("SED", kt.SED, wave=w, flux=f[0] if n == 1 and case["d1"] else f)
        if z != 0:
            ctx.call("set_redshift", s.set_redshift, z)
        got = ctx.call("project(sed)", R.project, sed=s)
    else:
        ff = f[0] if n == 1 and case["d1"] else f
        got = ctx.call("project(wave, flux)", R.project, wave=gen.wrap(w, case["c"]), flux=gen.wrap(ff, case["c"]))
    got = flat(ctx, "projection", got, n)
    ctx.within("projection (%s)" % cl, got, val, 2e-5 * scale + floor(c, f))


@st.composite
def s_real(draw):
    return dict(n=draw(st.sampled_from(gen.bundled())), t=draw(st.sampled_from(["default", "lrg", "smooth"])),
                s=draw(gen.smooth_sed(lo=(100., 2000.), hi=(20000., 3e6))),
                z=draw(st.one_of(st.just(0.), gen.lg(0.01, 8.))), u=draw(st.booleans()))


@sub("C01", "bundled", s_real, 500, 20000, rule="bundled bandpass overlapping the spectrum")
def bundled(case, ctx):
    import kcorrect.template as kt
    R, c = ctx.call("load_response", response, dict(k="file", n=case["n"]))
    if case["t"] == "smooth":
        w, f = gen.sed_arrays(case["s"])
        w, f = w.astype(np.float32), f.astype(np.float32)
    else:
        w, f, _ = gen.tmpl_arrays(gen.DEFAULT_T if case["t"] == "default" else gen.LRG_T)
        w, f = w.astype(np.float32), f.astype(np.float32)
    z = case["z"]
    wz, fz = w.astype(np.float64) * (1 + z), f.astype(np.float64) / (1 + z)
    val, scale = ref.project(c, wz, fz, cond=True)
    cl = classify(ctx, c, wz)
    ctx.nt(cl != "none")
    if case["u"]:
        got = ctx.call("project(wave, flux)", R.project, wave=np.float32(wz), flux=np.float32(fz))
    else:
        s = ctx.call("SED", kt.SED, wave=w, flux=f)
        ctx.call("set_redshift", s.set_redshift, z)
        got = ctx.call("project(sed)", R.project, sed=s)
    ctx.within("projection of %s" % case["n"], flat(ctx, "projection", got, f.shape[0]), val, 2e-5 * scale + floor(c, f))


@st.composite
def s_laws(draw):
    r = draw(resp())
    c = gen.curve(r)
    return dict(r=r, n=draw(st.sampled_from([gen.g6(x) for x in (1e-4, 0.3, 7., 1e5)])),
                m=draw(st.integers(20, 300)), lo=draw(gen.lin(0.2, 0.99)), hi=draw(gen.lin(1.01, 4.)),
                s=draw(near_sed(c)), a=draw(gen.lg(0.01, 100.)), o=draw(st.booleans()))


@sub("C01", "laws", s_laws, 1100, 30000, rule="nonzero projection in the linearity / normalisation relations")
def laws(case, ctx):
    import kcorrect.response as kr
    import kcorrect.template as kt
    import kcorrect.utils as ku
    R, c = ctx.call("Response", response, case["r"])
    if c.cond() > 5:
        ctx.label("ill-conditioned band")
        return
    # AB source
    w = np.linspace(c.w[0] * case["lo"], c.w[-1] * case["hi"], case["m"]).astype(np.float32)
    ab = ref.sed_ab(w)
    _, _ = ref.project(c, w, ab)
    spl = ref.project(c, w.astype(float), ab)[0][0]
    for nm, fl in (("3631 Jy source", ab), ("kcorrect.utils.sed_ab", ctx.call("sed_ab", ku.sed_ab, w))):
        if case["o"]:
            got = ctx.call("project(sed)", R.project, sed=kt.SED(wave=w, flux=np.float32(fl)))
        else:
            got = ctx.call("project", R.project, wave=w, flux=fl)
        # coarse sampling makes the interpolated AB source itself differ from the AB source
        ctx.within("AB source (%s)" % nm, flat(ctx, "AB", got, 1), [spl], 2e-5 * c.cond())
        if case["m"] > 150:
            ctx.within("AB source (%s)" % nm, flat(ctx, "AB", got, 1), [1.], 1e-3 * c.cond())
    # linearity, stacking, normalisation
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(np.float32), f.astype(np.float32)
    if (np.diff(w) <= 0).any():
        return
    n = f.shape[0]
    _, scale = ref.project(c, w, f)
    tot = 3e-5 * (scale.sum() + scale) + 1e-35
    p = flat(ctx, "stack", ctx.call("project", R.project, wave=w, flux=f), n)
    ctx.nt(np.any(p != 0))
    for i in range(n):
        one = flat(ctx, "single", ctx.call("project", R.project, wave=w, flux=f[i]), 1)
        ctx.within("spectrum %d alone and in the stack" % i, one, p[i:i + 1], tot[i])
    mix = f[0] * 2. + f[-1] * 0.5
    got = flat(ctx, "mixture", ctx.call("project", R.project, wave=w, flux=mix), 1)
    ctx.within("linearity", got, [2 * p[0] + .5 * p[-1]], 3 * tot.max())
    got = flat(ctx, "scaled", ctx.call("project", R.project, wave=w, flux=f * np.float32(case["a"])), n)
    ctx.within("scaling of the flux", got, p * case["a"], 2 * tot * case["a"])
    if case["r"]["k"] != "file":
        rw, rr = gen.resp_arrays(case["r"])
        R2 = ctx.call("Response", kr.Response, wave=rw, response=rr * case["n"])
        got = flat(ctx, "renormalised", ctx.call("project", R2.project, wave=w, flux=f), n)
        ctx.within("normalisation of the response", got, p, tot)
        R3 = ctx.call("Response", kr.Response, wave=rw[::-1].copy(), response=rr[::-1].copy())
        got = flat(ctx, "reversed", ctx.call("project", R3.project, wave=w, flux=f), n)
        ctx.within("order of the response samples", got, p, tot)


@st.composite
def s_order(draw):
    r = draw(resp())
    s = draw(near_sed(gen.curve(r)))
    n = len(s["w"])
    how = draw(st.sampled_from(["reverse", "any", "any", "blocks", "swap"]))
    if how == "reverse":
        p = list(range(n))[::-1]
    elif how == "blocks":
        i = draw(st.integers(1, n - 1))
        p = list(range(i, n)) + list(range(i))
    elif how == "swap":
        i, p = draw(st.integers(1, n - 3)), list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
    else:
        p = draw(st.permutations(list(range(n))))
    return dict(r=r, s=s, p=p, o=draw(st.booleans()), z=draw(st.sampled_from([0., 0., .3, 2.])), how=how)


@sub("C01", "order", s_order, 500, 20000, rule="samples not in order, nonzero projection")
def order(case, ctx):
    """The order in which the samples of the spectrum are given does not matter."""
    import kcorrect.template as kt
    R, c = ctx.call("Response", response, case["r"])
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(np.float32), f.astype(np.float32)
    if (np.diff(w) <= 0).any():
        return
    z, p = case["z"] if case["o"] else 0., case["p"]
    val, scale = ref.project(c, w.astype(float) * (1 + z), f.astype(float) / (1 + z), cond=True)
    if not np.isfinite(scale).all() or c.cond() > 20:
        ctx.label("ill-conditioned band")
        return
    cl = classify(ctx, c, w.astype(float) * (1 + z))
    ctx.nt(p != sorted(p) and cl != "none" and np.any(val != 0))
    ctx.label(case["how"])
    if case["o"]:
        s = ctx.call("SED", kt.SED, wave=w[p], flux=f[:, p])
        ctx.call("set_redshift", s.set_redshift, z)
        got = ctx.call("project(sed)", R.project, sed=s)
    else:
        got = ctx.call("project(wave, flux)", R.project, wave=w[p], flux=f[:, p])
    ctx.within("projection of samples in another order (%s)" % cl, flat(ctx, "projection", got, len(f)), val,
               2e-5 * scale + floor(c, f))


@st.composite
def s_stack(draw):
    r = draw(resp())
    s = draw(near_sed(gen.curve(r)))
    del s["f"]
    n = draw(st.one_of(st.integers(4, 80), st.sampled_from([10, 20, 50, 64, 100, 128, 200, 256, 450, 500, 512, 1000, 1024]),
                       gen.lg(30, 1300).map(int)))
    return dict(r=r, s=s, n=n, j=draw(st.integers(0, 1)), q=draw(st.integers(1, 10**6)), o=draw(st.booleans()),
                one=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3)), z=draw(st.sampled_from([0., .3, 2.])),
                sg=draw(st.booleans()))


@sub("C01", "stack", s_stack, 240, 8000, rule="a stack of at least ten spectra, nonzero projection")
def stack(case, ctx):
    """Stacks of any number of spectra."""
    import kcorrect.template as kt
    R, c = ctx.call("Response", response, case["r"])
    w = np.array(case["s"]["w"]).astype(np.float32)
    if (np.diff(w) <= 0).any():
        return
    n = case["n"] + case["j"]
    k = np.arange(n * len(w), dtype=np.int64)
    f = ((k * 7919 + k // 3 * case["q"]) % 97 / 96.).reshape(n, len(w))
    if case["sg"]:
        f = f * 2 - 1
    f = np.float32(f * case["s"]["a"])
    z = case["z"] if case["o"] else 0.
    val, scale = ref.project(c, w.astype(float) * (1 + z), f.astype(float) / (1 + z), cond=True)
    if not np.isfinite(scale).all() or c.cond() > 20:
        ctx.label("ill-conditioned band")
        return
    cl = classify(ctx, c, w.astype(float) * (1 + z))
    ctx.nt(cl != "none" and n >= 10 and np.any(val != 0))
    ctx.label("n<50" if n < 50 else "n<200" if n < 200 else "n>=200", "SED object" if case["o"] else "arrays")
    if case["o"]:
        s = ctx.call("SED", kt.SED, wave=w, flux=f)
        ctx.call("set_redshift", s.set_redshift, z)
        got = ctx.call("project(sed)", R.project, sed=s)
    else:
        got = ctx.call("project(wave, flux)", R.project, wave=w, flux=f)
    tol = 2e-5 * scale + floor(c, f)
    ctx.within("projection of a stack of %d spectra (%s)" % (n, cl), flat(ctx, "stack", got, n), val, tol)
    if not case["o"]:
        for i in case["one"]:
            one = flat(ctx, "single", ctx.call("project", R.project, wave=w, flux=f[i]), 1)
            ctx.within("spectrum %d of %d alone" % (i, n), one, val[i:i + 1], tol[i])


@st.composite
def s_fine(draw):
    r = draw(st.one_of(resp(), resp(), st.builds(lambda n, c, s: dict(k="fine", n=n, c=c, s=s), st.one_of(gen.lg(100, 6000).map(int)),
                                                 gen.lg(1500, 20000), gen.lin(.02, .3))))
    return dict(r=r, n=draw(st.one_of(gen.lg(100, 3000), gen.lg(1000, 60000), st.sampled_from([1024, 4096, 10000, 16384, 20000, 32769, 65536]))),
                lo=draw(gen.lin(-.6, .9)), hi=draw(gen.lin(.1, 1.6)), lg=draw(st.booleans()), k=draw(st.integers(1, 3)),
                q=draw(st.sampled_from([1, 2, 3, 5, 16, 101])), s=draw(st.integers(0, 10**6)), line=draw(st.booleans()),
                a=draw(gen.lg(1e-17, 1e-6, 20)), o=draw(st.booleans()), z=draw(st.sampled_from([0., 0., .3, 2.])))


@sub("C01", "fine", s_fine, 200, 6000, rule="nonzero projection of a spectrum with more than 500 samples in the band")
def fine(case, ctx):
    """Spectra (and bandpasses) of many samples, with structure at the scale of their sampling."""
    import kcorrect.response as kr
    import kcorrect.template as kt
    if case["r"]["k"] == "fine":
        q = case["r"]
        rw = np.linspace(q["c"] * (1 - q["s"]), q["c"] * (1 + q["s"]), q["n"]).astype(np.float32)
        rr = np.hanning(q["n"]) * (1. + .9 * np.cos(np.arange(q["n"]) * 2.))
        R = ctx.call("Response", kr.Response, wave=rw, response=rr)
        c = ref.Curve(rw, rr)
        ctx.label("bandpass of many samples")
    else:
        R, c = ctx.call("Response", response, case["r"])
    n = int(case["n"])
    wid = c.w[-1] - c.w[0]
    a, b = max(c.w[0] + case["lo"] * wid, .1 * c.w[0]), c.w[0] + case["hi"] * wid
    if b < a + .05 * wid:
        return
    wz = np.geomspace(a, b, n) if case["lg"] else np.linspace(a, b, n)
    z = case["z"] if case["o"] else 0.
    w = np.float32(wz / (1 + z))
    w = w[np.append(True, np.diff(w) > 1e-6 * w[1:])]
    if len(w) < 10 or (np.diff(w) <= 0).any():
        return
    i = np.arange(case["k"] * len(w)).reshape(case["k"], len(w))
    f = (i + case["s"]) // case["q"] % 2 + .05 if not case["line"] else .01 + ((i + case["s"]) % (97 * case["q"]) < case["q"])
    f = np.float32(f * case["a"])
    wz, fz = w.astype(float), f.astype(float)
    if case["o"]:
        s = ctx.call("SED", kt.SED, wave=w, flux=f)
        ctx.call("set_redshift", s.set_redshift, z)
        # (the rounding of redshifted wavelengths matters at this resolution)
        ctx.close("redshifted wavelengths", s.wave, wz * (1 + z), rtol=2e-7)
        ctx.close("redshifted flux", s.flux, fz / (1 + z), rtol=2e-7)
        wz, fz = np.asarray(s.wave, float), np.asarray(s.flux, float)
    val, scale = ref.project(c, wz, fz, cond=True)
    if not np.isfinite(scale).all() or c.cond() > 20:
        ctx.label("ill-conditioned band")
        return
    inb = int(((wz >= c.w[0]) & (wz <= c.w[-1])).sum())
    ctx.nt(inb > 500 and np.any(val != 0))
    ctx.label("n<1000" if inb < 1000 else "n<10000" if inb < 10000 else "n>=10000", "lines" if case["line"] else "comb")
    if case["o"]:
        got = ctx.call("project(sed)", R.project, sed=s)
    else:
        got = ctx.call("project(wave, flux)", R.project, wave=w, flux=f)
    ctx.within("projection of a spectrum with %d samples in the band" % inb, flat(ctx, "projection", got, len(f)), val,
               2e-5 * scale + floor(c, f))
