"""C16: absolute magnitude limits are the one-sigma flux through the same K-correction."""
import numpy as np

from kcv import absm, gen
from kcv.core import sub


@sub("C16", "limit", absm.case_, 640, 20000, rule="a defined and an undefined limit, or several objects")
def limit(case, ctx):
    B = gen.build(case["d"], ctx)
    k, m = B.k, B.m
    opt = (case["opt"][0], True, case["opt"][2])
    wants = []
    for i, o in enumerate(case["o"]):
        wt = absm.want(m, case, o)["limit"]
        wants.append(wt)
        what, r = absm.call(ctx, k, case, o, opt)
        ok = absm.judge(ctx, what + " limit", r["limit"], wt)
        und = wt[0] == -9999.
        ctx.nt((ok.any() and und.any()) or (ok.any() and len(case["o"]) > 1))
        ctx.label("undefined" if und.any() else "all defined", "band shift" if case["b"] else "no band shift",
                  "all-zero coefficients" if not any(o["c"]) else "coefficients",
                  "flux <= 0 with a limit" if (np.array(o["f"])[m.imap][ok] <= 0).any() else "positive fluxes")
        # regardless of the measured flux
        for f in ([-x for x in o["f"]], [0.] * B.nb, [np.nan] * B.nb, [np.inf] * B.nb):
            _, r2 = absm.call(ctx, k, case, dict(o, f=f), opt)
            a, b = np.asarray(r["limit"], float), np.asarray(r2["limit"], float)
            fin = np.isfinite(a)
            ctx.same(what + " limit, with other fluxes", b[fin], a[fin])
        # the magnitude of a flux equal to the one-sigma error
        iv = np.array(o["iv"])
        f = np.where(iv > 0, 1. / np.sqrt(np.where(iv > 0, iv, 1)), 0)
        _, r3 = absm.call(ctx, k, case, dict(o, f=np.float32(f).tolist()), (False, False, False))
        ctx.within(what + " limit against the magnitude of the one-sigma flux", np.where(ok, np.asarray(r["limit"], float), 0),
                   np.where(ok, np.asarray(r3["absmag"], float), 0), 2e-5)
    if case["arr"]:
        ix = gen.crowd(case["o"])
        what, r = absm.call(ctx, k, case, [case["o"][i] for i in ix], opt, arr=True)
        absm.judge(ctx, what + " limit", r["limit"], absm.rows([wants[i] for i in ix]))
        ctx.label("long array" if len(ix) > 7 else "array")
