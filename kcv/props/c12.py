"""C12: K-corrections are magnitude differences between observed and rest-frame bands."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col


@st.composite
def case_(draw, **kw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 6), **kw))
    o = [dict(z=draw(gen.redshift(d)), c=draw(gen.coeffs(d, allzero=1)), b=draw(gen.band_shift(d)))
         for _ in range(draw(st.integers(1, 6)))]
    if gen.same_redshift(draw, o, 4) or draw(st.booleans()):
        for x in o:
            x["b"] = o[0]["b"]
        gen.crowded(draw, d, o)
    return dict(d=d, o=o, w=draw(st.sampled_from(gen.CONTAINERS)), arr=draw(st.booleans()), s=draw(st.sampled_from([4., .125, 3., 1e-3])))


def judge(ctx, what, got, want, tol):
    ctx.expect(np.shape(got) == np.shape(want), lambda: "%s: shape %s, expected %s" % (what, np.shape(got), np.shape(want)))
    ok = np.isfinite(want) & (tol < .02)
    ctx.within(what, np.where(ok, np.asarray(got, float), 0), np.where(ok, want, 0), np.where(ok, tol, 1))
    return ok


@sub("C12", "definition", case_, 700, 20000,
     rule="a nonzero, well-determined K-correction (more than ten times its tolerance)")
def definition(case, ctx):
    d = case["d"]
    B = gen.build(d, ctx)
    k, m, w = B.k, B.m, case["w"]
    wants = []
    for o in case["o"]:
        want, tol = m.kcorrect(o["z"], o["c"], o["b"])
        what = "kcorrect(z=%r, band_shift=%r)" % (o["z"], o["b"])
        kw = dict(band_shift=o["b"]) if o["b"] else {}
        got = ctx.call(what, k.kcorrect, redshift=gen.zwrap(o["z"], w), coeffs=gen.wrap(o["c"], w), **kw)
        ok = judge(ctx, what, got, want, tol)
        ctx.nt(bool((ok & (np.abs(want) > 10 * tol)).any()))
        ctx.label("band shift" if o["b"] else "no band shift", "map" if "map" in d else "default map",
                  "own output bands" if "out" in d else "default output bands")
        if not any(o["c"]):
            ctx.same(what + ": all coefficients zero", got, np.zeros(B.nout if "out" in d else B.nb))
            ctx.label("all-zero coefficients")
            continue
        # independent of the overall scale of the coefficients
        c2 = np.float32(o["c"]) * np.float32(case["s"])
        if (c2 > 1e-30).sum() == (np.float32(o["c"]) > 0).sum():
            again = ctx.call(what, k.kcorrect, redshift=np.float32(o["z"]), coeffs=c2, **kw)
            judge(ctx, what + ", coefficients times %g" % case["s"], again, want, tol)
        # a band onto itself at redshift 0
        if not o["b"]:
            outs = d["out"] if "out" in d else d["b"]
            me = np.array([outs[i] == d["b"][m.imap[i]] for i in range(len(outs))])
            f0, t0 = m.reconstruct("out", 0., o["c"])
            me &= np.abs(f0) > 20 * t0
            me &= f0 > 0
            if me.any():
                z = ctx.call("kcorrect(0)", k.kcorrect, redshift=np.float32(0.), coeffs=np.float32(o["c"]))
                ctx.within("kcorrect(0) of a band onto itself", np.asarray(z)[me], np.zeros(me.sum()),
                           1e-6 + 2e-7 * t0[me] / f0[me] / 6e-6)
                ctx.label("self at 0")
        wants.append((want, tol))
    if case["arr"] and len(set(o["b"] for o in case["o"])) == 1:
        ix = gen.crowd(case["o"])
        os_ = [case["o"][i] for i in ix]
        got = ctx.call("kcorrect(array)", k.kcorrect, redshift=gen.wrap(col(os_, "z"), w),
                       coeffs=gen.wrap(col(os_, "c"), w), band_shift=os_[0]["b"])
        want, tol = zip(*[m.kcorrect(o["z"], o["c"], o["b"]) for o in case["o"]])
        judge(ctx, "kcorrect(array)", got, np.array(want)[ix], np.array(tol)[ix])
        for i, o in enumerate(os_):
            if not any(o["c"]):
                ctx.expect(not np.any(got[i]), "kcorrect(array): %s for all-zero coefficients" % (got[i],))
        ctx.label("long array" if len(ix) > 7 else "array")


@sub("C12", "reconstructions", lambda: case_(nz=(2, 40)), 300, 10000,
     rule="finite K-corrections compared with the object's own model fluxes")
def consistent(case, ctx):
    """The same relation between the values the object itself returns."""
    d = case["d"]
    B = gen.build(d, ctx)
    k, m = B.k, B.m
    for o in case["o"]:
        if not any(o["c"]):
            continue
        z, c = np.float32(o["z"]), np.float32(o["c"])
        fin = np.asarray(ctx.call("reconstruct", k.reconstruct, redshift=z, coeffs=c), float)[m.imap]
        fout = np.asarray(ctx.call("reconstruct_out", k.reconstruct_out, redshift=0. * z, coeffs=c, band_shift=o["b"]), float)
        ok = (fin > 1e-30) & (fout > 1e-30)
        want = np.where(ok, -2.5 * np.log10(np.where(ok, fin / np.where(ok, fout, 1), 1)), 0)
        _, t1 = m.reconstruct("in", o["z"], o["c"])
        _, t2 = m.reconstruct("out", 0., o["c"], o["b"])
        tol = 2e-5 + .2 * (t1[m.imap] / np.where(ok, fin, 1) + t2 / np.where(ok, fout, 1))
        got = np.asarray(ctx.call("kcorrect", k.kcorrect, redshift=z, coeffs=c, band_shift=o["b"]), float)
        ctx.expect(got.shape == fout.shape, lambda: "kcorrect: shape %s, reconstruct_out %s" % (got.shape, fout.shape))
        ok &= tol < .02
        ctx.within("kcorrect against -2.5 log10(reconstruct / reconstruct_out)", np.where(ok, got, 0), np.where(ok, want, 0), tol)
        ctx.nt(ok.any())
