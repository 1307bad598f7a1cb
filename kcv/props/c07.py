"""C07: model fluxes against projections of the redshifted templates."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def shift_case(draw, d):
    """(z, band_shift) with the shifted redshift inside the range."""
    z0, z1 = gen.f32(d["z"][0]), gen.f32(d["z"][1])
    z = draw(gen.redshift(d))
    m = draw(st.integers(0, 5))
    if m <= 2:
        return z, 0.
    s = z0 + (z1 - z0) * draw(gen.lin(0.001, 0.999))
    return z, gen.f32((s - z) / (1. + z))


@st.composite
def case_(draw, **kw):
    d = draw(gen.config(**kw))
    ev = []
    for _ in range(draw(st.integers(1, 6))):
        z, b = draw(shift_case(d))
        c = draw(gen.coeffs(d))
        if draw(st.integers(0, 9)) == 0:
            c[0] = -c[0]
        ev.append(dict(z=z, b=b, c=c))
    arr = draw(st.booleans())
    if arr:
        # one band shift for all
        z0, z1 = gen.f32(d["z"][0]), gen.f32(d["z"][1])
        b = ev[0]["b"] if draw(st.booleans()) else 0.
        for e in ev:
            if b and not z0 < e["z"] + (1. + e["z"]) * b < z1:
                e["z"] = ev[0]["z"]
            e["b"] = b
        gen.crowded(draw, d, ev)
    return dict(d=d, ev=ev, w=draw(st.sampled_from(gen.CONTAINERS)), arr=arr)


def body(case, ctx, cls=None):
    d = case["d"]
    B = gen.build(d, ctx, cls)
    k, m = B.k, B.m
    ctx.expect(len(k.redshifts) == d["nz"], "redshifts has %d entries, nredshift is %d" % (len(k.redshifts), d["nz"]))
    ctx.close("redshifts", k.redshifts, m.grid, rtol=3e-7, atol=3e-7)
    ctx.close("templates.wave after construction", k.templates.wave, m.tw, rtol=3e-7)
    ctx.close("templates.flux after construction", k.templates.flux, m.tf, rtol=3e-7, atol=1e-44)
    ctx.expect(float(k.templates.redshift) == 0., "templates are left at redshift %r" % k.templates.redshift)
    which = [("in", "reconstruct", "Amatrix", B.nb)]
    if cls != "Fitter":
        which.append(("out", "reconstruct_out", "AmatrixOut", B.nout if "out" in d else B.nb))
    n = len(ctx.labels)
    for w, meth, am, nb in which:
        ests = []
        for e in case["ev"]:
            want, tol = m.reconstruct(w, e["z"], e["c"], e["b"])
            ests.append((want, tol))
            what = "%s(z=%r, band_shift=%r)" % (meth, e["z"], e["b"])
            kw = dict(band_shift=e["b"]) if e["b"] else {}
            got = ctx.call(what, getattr(k, meth), redshift=gen.zwrap(e["z"], case["w"]),
                           coeffs=gen.wrap(e["c"], case["w"]), **kw)
            ctx.within(what, got, want, tol + 1e-37)
            A, ta = m.A(w, e["z"])
            got = ctx.call("%s(%r)" % (am, e["z"]), getattr(k, am), np.float32(e["z"]))
            ctx.within("%s(%r)" % (am, e["z"]), got, A, ta + 1e-37)
            ctx.nt(np.any(np.abs(want) > 10 * tol))
            ctx.label("band shift" if e["b"] else "no band shift")
            x = (e["z"] - m.zmin) / (m.zmax - m.zmin)
            ctx.label("z at an end" if x in (0., 1.) else "z inside")
        if case["arr"]:
            b = case["ev"][0]["b"]
            ix = gen.crowd(case["ev"])
            got = ctx.call(meth + "(array)", getattr(k, meth),
                           redshift=gen.wrap([case["ev"][i]["z"] for i in ix], case["w"]),
                           coeffs=gen.wrap([case["ev"][i]["c"] for i in ix], case["w"]), band_shift=b)
            ctx.within(meth + "(array)", got, [ests[i][0] for i in ix], np.array([ests[i][1] for i in ix]) + 1e-37)
            ctx.label("long array" if len(ix) > 7 else "array")
    ctx.label(d["t"]["k"], "interpolated" if d.get("it", 1) else "low memory",
              "nsed=1" if B.nsed == 1 else "nsed>1", "nb=1" if B.nb == 1 else "nb>1")


@sub("C07", "kcorrect", case_, 420, 12000, rule="a model flux well above its numerical tolerance")
def kcorrect_(case, ctx):
    body(case, ctx)


@sub("C07", "partial", lambda: case_(full=False, real=False), 260, 8000,
     rule="a model flux well above its numerical tolerance (templates that cover only some bands at some redshifts)")
def partial(case, ctx):
    body(case, ctx)


@sub("C07", "fitter", lambda: case_(out=False, zpos=True, real=False, nz=(2, 30)), 200, 6000,
     rule="a model flux well above its numerical tolerance (Fitter alone, range may exclude 0)")
def fitter(case, ctx):
    body(case, ctx, "Fitter")
