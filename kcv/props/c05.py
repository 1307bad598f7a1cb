"""C05: SED state after any sequence of operations."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def case_(draw):
    s = draw(st.one_of(gen.pts_sed(nmax=30), gen.smooth_sed(n=(20, 200))))
    large = draw(st.integers(0, 11)) == 0
    if large:
        s = draw(st.one_of(gen.smooth_sed(nsed=1, n=(15000, 30000)), gen.smooth_sed(nsed=5, n=(3000, 8000))))
    ops = []
    zs = st.one_of(st.just(0.), gen.lin(-0.6, 6.), gen.lin(-0.6, 6.), gen.lg(1e-4, 10.), gen.lg(1e-4, 10.),
                   gen.lg(1e-7, 1e-2).map(lambda x: -x if int(x * 1e10) % 3 == 0 else x))
    for _ in range(draw(st.integers(1, 10))):
        o = draw(st.sampled_from(["z", "z", "z", "z", "same", "zd", "interp", "on", "on", "project", "tofits", "dtype", "plot"]))
        e = dict(o=o)
        if o == "z":
            e["z"] = draw(zs)
            e["t"] = draw(st.sampled_from(["float", "f4", "f8"]))
        ops.append(e)
        if o in ("on", "interp") and draw(st.booleans()):
            ops.append(dict(o="same"))
    if large:
        ops = ops[:5]
    return dict(s=s, ops=ops, ord=draw(st.sampled_from(["up", "up", "up", "down", "mixed"])), dt=draw(st.sampled_from(["f4", "f4", "f8"])), it=draw(st.booleans()),
                d1=draw(st.booleans()), ro=draw(st.booleans()), src=draw(st.sampled_from(["arrays", "arrays", "fits"])))


def curve_check(ctx, what, itp, w, f, eps):
    """itp interpolates the samples (w, f[nsed]) and is zero outside."""
    i = np.argsort(w)
    w, f = w[i].astype(np.float64), f[:, i]
    amp = np.abs(f).max() + 1e-300
    got = np.asarray(itp(w), np.float64).reshape(f.shape)
    ctx.close(what + ": interp at its own samples", got, f, rtol=0, atol=1e-5 * amp)
    wid = w[-1] - w[0]
    got = np.asarray(itp(np.array([w[0] - 0.05 * wid, w[-1] + 0.05 * wid])), np.float64)
    ctx.close(what + ": interp outside", got.reshape(f.shape[0], 2), np.zeros((f.shape[0], 2)), rtol=0, atol=1e-12 * amp)
    mid = 0.5 * (w[1:] + w[:-1])
    if len(mid) > 40:
        mid = mid[::len(mid) // 40]
    sp = ref.spline0(w, f)
    want = sp(mid)
    sens = np.abs(want - ref.spline0(w * (1 + 3e-7), f)(mid))
    got = np.asarray(itp(mid), np.float64).reshape(want.shape)
    ctx.within(what + ": interp between samples", got, want, 2e-5 * np.maximum(amp, np.abs(want)) + 5 * sens)


@sub("C05", "history", case_, 2400, 80000, rule="at least two different redshifts were set")
def history(case, ctx):
    import kcorrect.response as kr
    import kcorrect.template as kt
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(case["dt"]), f.astype(case["dt"])
    if (np.diff(w) <= 0).any():
        return
    n = f.shape[0]
    if case["ord"] != "up":
        # samples in another order
        p = np.arange(len(w))[::-1] if case["ord"] == "down" else np.random.RandomState(len(w)).permutation(len(w))
        w, f = w[p].copy(), np.ascontiguousarray(f[:, p])
    w0, f0 = w.astype(np.float64), f.astype(np.float64)
    wi, fi = w.copy(), (f[0] if n == 1 and case["d1"] else f).copy()
    if case["ro"]:
        wi.setflags(write=False)
        fi.setflags(write=False)
    path = os.path.join(gen.scratch("c05"), "s%d.fits" % os.getpid())
    if case["src"] == "fits":
        case_sed = kt.SED(wave=wi, flux=fi, interpolate=False)
        ctx.call("tofits", case_sed.tofits, path)
        s = ctx.call("SED(filename)", kt.SED, filename=path, interpolate=case["it"])
        w0, f0 = w0.astype(np.float32).astype(float), f0.astype(np.float32).astype(float)
        if len(np.unique(w0)) < len(w0):
            return
        eps = 3e-7
    else:
        s = ctx.call("SED", kt.SED, wave=wi, flux=fi, interpolate=case["it"])
        eps = 3e-7 if case["dt"] == "f4" else 1e-12
    z, has, keep, zs = 0., case["it"], case["it"], set()
    R = None
    bol = np.abs(np.trapezoid(np.abs(f0), w0))
    bol0 = np.trapezoid(f0, w0)

    def check(what):
        e = max(eps, 3e-7 if zt else 0)
        wz, fz = w0 * (1 + z), f0 / (1 + z)
        ctx.close(what + ": wave", s.wave, wz, rtol=e)
        ctx.close(what + ": flux", s.flux, fz, rtol=e, atol=1e-44)
        ctx.close(what + ": redshift", float(s.redshift), z, rtol=1e-9)
        ctx.expect(int(s.nsed) == n and int(s.nwave) == len(w0), what + ": nsed/nwave %s/%s" % (s.nsed, s.nwave))
        ctx.close(what + ": restframe_wave", s.restframe_wave, w0, rtol=1e-15)
        ctx.close(what + ": restframe_flux", s.restframe_flux, f0, rtol=1e-15)
        b = np.trapezoid(np.asarray(s.flux, float), np.asarray(s.wave, float))
        ctx.within(what + ": bolometric integral", b, bol0, 1e-5 * bol + 4e-7 * (np.abs(f0) * w0).sum(axis=-1) + 1e-40)
        if z == 0.:
            ctx.close(what + ": flux at z=0", s.flux, f0, rtol=1e-15)
            ctx.close(what + ": wave at z=0", s.wave, w0, rtol=1e-15)
        ctx.expect((s.interp is not None) == has, what + ": interp is %r" % s.interp)
        if has:
            curve_check(ctx, what, s.interp, np.asarray(s.wave), np.asarray(s.flux, dtype=float), e)

    zt = False
    check("initially")
    for i, e in enumerate(case["ops"]):
        what = "after step %d (%s)" % (i, e)
        o = e["o"]
        if o == "z":
            z = e["z"] if e["t"] != "f4" else gen.f32(e["z"])
            zt = zt or e["t"] == "f4"
            arg = dict(float=float, f4=np.float32, f8=np.float64)[e["t"]](e["z"])
            ctx.call(what, s.set_redshift, redshift=arg)
            zs.add(z)
            has = keep or has
        elif o == "same":
            ctx.call(what, s.set_redshift, redshift=s.redshift)
            has = keep or has
        elif o == "zd":
            z = 0.
            ctx.call(what, s.set_redshift)
            zs.add(0.)
            has = keep or has
        elif o == "interp":
            ctx.call(what, s.set_interp)
            has = True
        elif o == "on":
            # the documented attribute, which the next redshift heeds
            keep = s.interpolate = True
        elif o == "project":
            if R is None:
                R = kr.Response(wave=np.linspace(4000., 6000., 15), response=np.hanning(15))
            if has:
                ctx.call(what, R.project, sed=s)
            ctx.call(what, R.project, wave=s.wave, flux=s.flux)
        elif o == "tofits":
            ctx.call(what, s.tofits, path)
        elif o == "dtype":
            ctx.call(what, s.sed_dtype)
        elif o == "plot" and i < 2 and np.any(s.flux > 0):
            import matplotlib.pyplot as plt
            ctx.call(what, s.plot)
            plt.close("all")
        check(what)
    ctx.label("samples in order" if case["ord"] == "up" else "samples in another order")
    ctx.label("interpolated" if case["it"] else "not interpolated", "nsed=1" if n == 1 else "nsed>1", case["dt"],
              "negative z" if any(v < 0 for v in zs) else "nonnegative z", case["src"])
    ctx.nt(len(zs) >= 2)
    ctx.same("the arrays given", np.asarray(wi, float), w.astype(float))
    ctx.same("the arrays given", np.asarray(fi, float).reshape(n, -1), f.astype(float))
