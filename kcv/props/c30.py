"""C30: plotting an SED shows the spectra asked for."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub


@st.composite
def case_(draw):
    s = draw(st.one_of(gen.pts_sed(nmax=25), gen.pts_sed(nmax=12), gen.smooth_sed(n=(20, 120))))
    n = len(s["f"]) if s["k"] == "pts" else len(gen.sed_arrays(s)[1])
    how = draw(st.sampled_from(["default", "int", "npint", "list", "array", "tuple"]))
    i = draw(st.lists(st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(-n, n - 1)), min_size=1, max_size=5))
    lim = None
    if draw(st.booleans()):
        a, b = draw(gen.lin(-.2, .9)), draw(gen.lin(.02, 1.2))
        lim = dict(a=a, b=b, t=draw(st.sampled_from(["list", "f4", "f8", "tuple"])))
    return dict(s=s, how=how, i=i, lim=lim, z=draw(st.one_of(st.just(0.), gen.lin(-.5, 5.))), it=draw(st.booleans()),
                old=draw(st.integers(0, 2)), dt=draw(st.sampled_from(["f4", "f8"])), axes=draw(st.integers(1, 2)),
                again=draw(st.booleans()), dr=draw(st.sampled_from([0, 0, 0, 14, -20, 25])))


@sub("C30", "lines", case_, 560, 16000, rule="several spectra, an index, limits or a redshift")
def lines(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import kcorrect.template as kt
    w, f = gen.sed_arrays(case["s"])
    # spectra of a large dynamic range
    f = f * 10.**(-case["dr"] * np.linspace(-.2, .8, len(w)))
    w, f = w.astype(case["dt"]), f.astype(case["dt"])
    if (np.diff(w) <= 0).any():
        return
    s = ctx.call("SED", kt.SED, wave=w, flux=f, interpolate=case["it"])
    if case["z"]:
        ctx.call("set_redshift", s.set_redshift, case["z"])
    wz, fz = np.array(s.wave, float), np.array(s.flux, float)
    n = fz.shape[0]
    idx = case["i"]
    how = case["how"]
    kw = {}
    if how == "default":
        idx = list(range(n))
    elif how in ("int", "npint"):
        idx = idx[:1]
        kw["indx"] = idx[0] if how == "int" else np.int32(idx[0])
    else:
        kw["indx"] = dict(list=list, tuple=tuple, array=np.array)[how](idx)
    what = "plot(%s)" % ", ".join("%s=%r" % x for x in kw.items())
    lim = None
    if case["lim"]:
        lw = np.log10(wz[0]), np.log10(wz[-1])
        lim = [10.**(lw[0] + x * (lw[1] - lw[0])) for x in (case["lim"]["a"], case["lim"]["a"] + case["lim"]["b"])]
        lim = [gen.f32(x) for x in lim]
        inside = (wz > lim[0] * (1 + 1e-6)) & (wz < lim[1] * (1 - 1e-6))
        if not (fz[idx][:, inside] > 0).any():
            lim = None
        else:
            kw["wavelim"] = dict(list=list, tuple=tuple, f4=np.float32, f8=np.float64)[case["lim"]["t"]](lim)
    ctx.label("large dynamic range" if case["dr"] else "")
    ctx.label(how, "limits" if lim else "no limits", "redshifted" if case["z"] else "rest frame")
    ctx.nt(n > 1 or how != "default" or lim is not None or case["z"] != 0)
    fig = plt.figure(figsize=(2, 2))
    try:
        axs = [fig.add_subplot(1, case["axes"], j + 1) for j in range(case["axes"])]
        plt.sca(axs[0])
        olds = [axs[0].plot([3., 4.], [j, j + 1.])[0] for j in range(case["old"])]
        for rep in range(2 if case["again"] else 1):
            n0 = len(axs[0].lines)
            ctx.call(what, s.plot, **kw)
            ctx.expect(plt.gca() is axs[0], what + ": the current axes changed")
            ctx.expect(list(axs[0].lines[:case["old"]]) == olds, what + ": earlier curves vanished")
            new = list(axs[0].lines[n0:])
            ctx.expect(len(new) == len(idx) and len(axs[0].lines) == n0 + len(idx),
                       lambda: "%s: %d curves drawn for %d spectra" % (what, len(new), len(idx)))
            for ln, i in zip(new, idx):
                ok = fz[i] > 0
                x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
                ctx.expect(x.shape == y.shape == (ok.sum(),), lambda: "%s: spectrum %d drawn with %s points, %d samples are positive"
                           % (what, i, x.shape, ok.sum()))
                ctx.close("%s: log10(lambda) of spectrum %d" % (what, i), x, np.log10(wz[ok]), rtol=0, atol=2e-6)
                ctx.close("%s: log10(lambda f) of spectrum %d" % (what, i), y, np.log10(wz[ok]) + np.log10(fz[i][ok]), rtol=0,
                          atol=1e-5)
        for ax in axs[1:]:
            ctx.expect(not ax.lines, what + ": drew into other axes")
        if lim is not None:
            ctx.close(what + ": x limits", sorted(axs[0].get_xlim()), np.log10(lim), rtol=0, atol=2e-6)
            q = fz[idx][:, inside] * wz[inside]
            q = np.log10(q[q > 0])
            lo, hi = sorted(axs[0].get_ylim())
            ctx.expect(lo < q.min() + 1e-5 and hi > q.max() - 1e-5 and lo > q.min() - 1 and hi < q.max() + 1, lambda:
                       "%s: y limits %g..%g for values from %g to %g inside the wavelength limits" % (what, lo, hi, q.min(), q.max()))
    finally:
        plt.close(fig)
    ctx.same(what + ": wave", np.asarray(s.wave, float), wz)
    ctx.same(what + ": flux", np.asarray(s.flux, float), fz)
    ctx.same(what + ": rest-frame flux", np.asarray(s.restframe_flux, float), f.astype(float))
    ctx.expect((s.interp is not None) == case["it"], what + ": interp is %r" % s.interp)
