"""C14: absolute magnitudes obey m = M + DM + K, with -9999 for undefined bands."""
import itertools

import numpy as np

from kcv import absm, gen
from kcv.core import sub


@sub("C14", "definition", absm.case_, 560, 18000, rule="a defined and an undefined band, or several objects")
def definition(case, ctx):
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    wants = []
    for o in case["o"]:
        wt = absm.want(m, case, o)
        wants.append(wt)
        what, r = absm.call(ctx, k, case, o, case["opt"])
        ok = absm.judge(ctx, what, r["absmag"], wt["absmag"])
        if "k" in r:
            absm.judge(ctx, what + " K-correction output", r["k"], (wt["k"][0], wt["k"][1]))
            # the K-correction returned is the one used
            f, iv = np.array(o["f"])[m.imap], np.array(o["iv"])[m.imap]
            gd = (f > 0) & (iv > 0) & (wt["k"][1] < .02) & np.isfinite(wt["k"][0])
            M = np.where(gd, -2.5 * np.log10(np.where(gd, f, 1)) - m.dm(o["z"], o["D"] if case["dist"] else None)
                         - np.where(gd, np.asarray(r["k"], float), 0), 0)
            ctx.within(what + ": absmag against the returned K-correction", np.where(gd, np.asarray(r["absmag"], float), 0), M,
                       m.dm_tol(o["z"], o["D"] if case["dist"] else None) + 1e-5)
        und = wt["absmag"][0] == -9999.
        ctx.nt((ok.any() and und.any()) or (ok.any() and len(case["o"]) > 1))
        ctx.label("undefined bands" if und.any() else "all bands defined", "distance" if case["dist"] else "cosmology",
                  "band shift" if case["b"] else "no band shift", "map" if "map" in case["d"] else "default map")
        if not any(o["c"]):
            ctx.label("all-zero coefficients")
    if case["arr"]:
        ix = gen.crowd(case["o"])
        what, r = absm.call(ctx, k, case, [case["o"][i] for i in ix], case["opt"], arr=True)
        for nm in r:
            if nm in ("absmag", "k"):
                absm.judge(ctx, what + " " + nm, r[nm], absm.rows([wants[i][nm] for i in ix]))
        ctx.label("long array" if len(ix) > 7 else "array")


@sub("C14", "options", lambda: absm.case_(n=(1, 3)), 240, 8000, rule="every case (all eight combinations of optional outputs)")
def options(case, ctx):
    """Requesting optional outputs changes neither order nor values of the others."""
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    arr = case["arr"]
    o = case["o"] if arr else case["o"][0]
    wts = [absm.want(m, case, x) for x in case["o"]]
    ref = None
    for opt in [(True, True, True)] + list(itertools.product([False, True], repeat=3)):
        what, r = absm.call(ctx, k, case, o, opt, arr)
        if ref is None:
            ref = r
            for nm in r:
                absm.judge(ctx, "%s: output %s" % (what, nm), r[nm],
                           absm.rows([w[nm] for w in wts]) if arr else wts[0][nm])
        for nm in r:
            a, b = np.asarray(r[nm], float), np.asarray(ref[nm], float)
            fin = np.isfinite(b)
            ctx.close("%s: output %s against the call with all outputs" % (what, nm), np.where(fin, a, 0),
                      np.where(fin, b, 0), rtol=1e-6, atol=1e-6)
    ctx.nt()
    ctx.label("array" if arr else "scalar")


@sub("C14", "bands", lambda: absm.case_(n=(1, 1), allzero=0), 200, 8000,
     rule="at least two output bands that use different input bands")
def bands(case, ctx):
    """Changing one input band changes only the output bands mapped to it."""
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    o = case["o"][0]
    _, a = absm.call(ctx, k, case, o, (False, True, False))
    ctx.nt(len(set(m.imap)) > 1)
    for j in range(B.nb):
        for f, iv in ((-1., 1.), (0., 1e18), (2e-9, 0.), (2e-9, 1e20), (3e-8, -1.), (np.nan, 0.),
                      (np.nan, 1e18), (np.inf, 0.), (2e-9, np.nan)):
            o2 = dict(o, f=list(o["f"]), iv=list(o["iv"]))
            o2["f"][j], o2["iv"][j] = float(f), float(iv)
            what, b = absm.call(ctx, k, case, o2, (False, True, False))
            for nm in a:
                x, y = np.asarray(a[nm], float), np.asarray(b[nm], float)
                other = (np.array(m.imap) != j) & np.isfinite(x)
                ctx.same("%s output %s of the bands not mapped to input %d, which changed" % (what, nm, j), y[other], x[other])
            wt = absm.want(m, case, o2)
            absm.judge(ctx, what, b["absmag"], wt["absmag"])
