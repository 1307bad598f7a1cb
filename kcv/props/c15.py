"""C15: reconstructed absolute magnitudes are those of the model SED."""
import numpy as np

from kcv import absm, gen
from kcv.core import sub


@sub("C15", "model", absm.case_, 520, 18000, rule="a well-determined reconstructed magnitude")
def model(case, ctx):
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    opt = (True, case["opt"][1], case["opt"][2])
    wants = []
    for i, o in enumerate(case["o"]):
        wt = absm.want(m, case, o)["reconstruct"]
        f, t = m.reconstruct("out", 0., o["c"], case["b"])
        # sign of the model flux undetermined: not judged
        unsure = (np.abs(f) <= 3 * t) & (np.abs(f) > 0) if any(o["c"]) else np.zeros(len(f), bool)
        wt = (np.where(unsure, np.nan, wt[0]), wt[1])
        wants.append(wt)
        what, r = absm.call(ctx, k, case, o, opt)
        ok = absm.judge(ctx, what + " reconstructed", r["reconstruct"], wt)
        ctx.nt(ok.any())
        ctx.label("band shift" if case["b"] else "no band shift", "map" if "map" in case["d"] else "default map",
                  "all-zero coefficients" if not any(o["c"]) else "coefficients")
        # independent of the observed fluxes and errors
        o2 = dict(o, f=case["o"][i - 1]["f"], iv=[1.] * B.nb)
        o3 = dict(o, f=[-1e-9] * B.nb, iv=[0.] * B.nb)
        for x in (o2, o3):
            _, r2 = absm.call(ctx, k, case, x, opt)
            a, b = np.asarray(r["reconstruct"], float), np.asarray(r2["reconstruct"], float)
            fin = np.isfinite(a)
            ctx.same(what + " reconstructed, with other observed fluxes", b[fin], a[fin])
    if case["arr"]:
        ix = gen.crowd(case["o"])
        what, r = absm.call(ctx, k, case, [case["o"][i] for i in ix], opt, arr=True)
        absm.judge(ctx, what + " reconstructed", r["reconstruct"], absm.rows([wants[i] for i in ix]))
        ctx.label("long array" if len(ix) > 7 else "array")


@sub("C15", "consistent", lambda: absm.case_(allzero=0), 360, 12000, rule="an output band with positive model and observed flux")
def consistent(case, ctx):
    """Where the observed flux is the model flux, the two magnitudes agree."""
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    os_, tols = [], []
    for o in case["o"]:
        f = ctx.call("reconstruct", k.reconstruct, redshift=np.float32(o["z"]), coeffs=np.float32(o["c"]))
        fi, ti = m.reconstruct("in", o["z"], o["c"])
        fo, to = m.reconstruct("out", 0., o["c"], case["b"])
        os_.append(dict(o, f=np.float32(f).tolist(), iv=[gen.f32(1. / max(abs(x), 1e-30)**2) if abs(x) > 1e-15 else 1. for x in fi]))
        # judged where both fluxes are well above rounding
        ok = (fi[m.imap] > 3 * ti[m.imap]) & (fo > 3 * to) & (fi[m.imap] > 1e-30) & (fo > 1e-30)
        t = 2.4 * .1 * (ti[m.imap] / np.where(ok, fi[m.imap], 1) + to / np.where(ok, fo, 1)) + 3e-5
        tols.append(np.where(ok & (t < .02), t, np.inf))
    arr = case["arr"]
    what, r = absm.call(ctx, k, case, os_ if arr else os_[0], (True, False, False), arr)
    a, b = np.asarray(r["absmag"], float), np.asarray(r["reconstruct"], float)
    t = np.array(tols) if arr else tols[0]
    ok = np.isfinite(t)
    ctx.expect(a.shape == t.shape == b.shape, lambda: what + ": shapes %s and %s" % (a.shape, b.shape))
    ctx.within(what + ": reconstructed against K-corrected magnitude of the model fluxes", np.where(ok, b, 0),
               np.where(ok, a, 0), np.where(ok, t, 1))
    ctx.nt(ok.any())
    ctx.label("array" if arr else "scalar", "band shift" if case["b"] else "no band shift")
