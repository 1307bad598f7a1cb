"""C09: fluxes synthesised from the templates are recovered."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 6), nsed=(1, 5), nz=(2, 8)))
    z0, z1 = gen.f32(d["z"][0]), gen.f32(d["z"][1])
    ob = []
    for _ in range(draw(st.integers(1, 4))):
        ob.append(dict(i=draw(st.integers(0, d["nz"] - 1)), c=draw(gen.coeffs(d)),
                       sn=[draw(gen.lg(1., 1e3, 60)) for _ in d["b"]],
                       off=[draw(st.sampled_from([0, 0, 0, 1])) for _ in d["b"]]))
    return dict(d=d, o=ob, b=draw(gen.band_shift(d)), dist=draw(gen.DISTS), own=draw(st.booleans()))


@sub("C09", "recovery", case_, 600, 20000, rule="at least one object with two or more weighted bands or a determined mixture")
def recovery(case, ctx):
    import kcorrect.response as kr
    import kcorrect.template as kt
    d = case["d"]
    B = gen.build(d, ctx)
    k, m = B.k, B.m
    if case["own"]:
        T = kt.Template(filename=gen.tmpl_file(d["t"]), interpolate=True)
        reg = kr.ResponseDict()
    for o in case["o"]:
        z = gen.f32(m.grid[o["i"]])
        z = min(max(z, m.zmin), m.zmax)
        c = np.array(o["c"])
        if case["own"]:
            # synthesised with kcorrect's own projection
            ctx.call("set_redshift", T.set_redshift, z)
            P = np.array([np.broadcast_to(np.asarray(ctx.call("project", reg[gen.resp_name(s)].project, sed=T), float),
                                          (B.nsed,)) for s in d["b"]])
        else:
            P = np.array([m.direct(cv, z)[0] for cv in m.curves])
        f = P @ c
        if not (f > 0).all():
            continue
        on = np.array([not x for x in o["off"]])
        iv = np.where(on, np.minimum((np.array(o["sn"]) / f)**2, 1e34), 0.)   # single precision range
        f32, iv32 = np.float32(f), np.float32(iv)
        cc = ctx.call("fit_coeffs", k.fit_coeffs, redshift=np.float32(z), maggies=f32, ivar=iv32)
        rec = ctx.call("reconstruct", k.reconstruct, redshift=np.float32(z), coeffs=cc)
        w = np.sqrt(np.float64(iv32))
        nb = np.linalg.norm(w * f)
        _, tA = m.A("in", z)
        slack = 2e-5 * nb + 2 * np.linalg.norm(w * (tA @ c))
        tol = np.where(on, slack / np.where(on, w, 1.), np.inf)
        ctx.within("reconstructed fluxes of weighted bands at z=%r" % z, np.asarray(rec, float)[on], f[on],
                   tol[on] + 2e-6 * f[on])
        ctx.nt(on.sum() > 1)
        # is the mixture determined by the weighted bands?
        Aw = (P * w[:, None])[on]
        sc = np.linalg.norm(Aw, axis=0)
        if on.sum() >= B.nsed and (sc > 0).all():
            sv = np.linalg.svd(Aw / sc, compute_uv=False)
            if sv[-1] > 2e-3:
                ctx.label("determined")
                ctx.nt()
                e = slack / sv[-1]                      # error of scaled coefficients
                ctx.within("coefficients at z=%r" % z, cc, c, 3 * e / sc + 1e-5 * c)
                full = np.abs(P) @ (3 * e / sc)
                ctx.within("reconstructed fluxes of all bands", rec, f, full + tA @ c + 1e-5 * f)
                kk, tk = m.kcorrect(z, c, case["b"])
                fo, to = m.reconstruct("out", 0., c, case["b"])
                A0, _ = m.A("out", case["b"])
                if (fo > 0).all() and np.isfinite(kk).all():
                    dk = 1.1 * (full / f)[m.imap] + 1.1 * (np.abs(A0) @ (3 * e / sc)) / (1 + case["b"]) / fo
                    tot = tk + dk + 2e-5
                    if tot.max() < 0.05:
                        got = ctx.call("kcorrect", k.kcorrect, redshift=z, coeffs=cc, band_shift=case["b"])
                        ctx.within("K-correction of the fit", got, kk, tot)
                        am = ctx.call("absmag", k.absmag, redshift=z, maggies=f32, ivar=np.float32(np.minimum(1. / f**2, 1e34)),
                                      coeffs=cc, band_shift=case["b"], distance=case["dist"])
                        # absolute magnitude of the mixture itself through the output band
                        ctx.within("absolute magnitude of the fit", am,
                                   ref.mag(fo) - ref.dm_of(np.float32(case["dist"])), tot + 3e-5)
            else:
                ctx.label("degenerate")
        else:
            ctx.label("underdetermined")
