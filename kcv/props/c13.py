"""C13: band-shifting to the object's own redshift gives -2.5 log10(1+z)."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 6), nz=(2, 60), out=False, full=draw(st.integers(0, 3)) > 0))
    n = len(d["b"])
    mode = draw(st.sampled_from(["none", "same list", "permuted", "some"]))
    if mode == "same list":
        d["out"] = list(d["b"])
        if draw(st.booleans()):
            d["map"] = list(range(n))
    elif mode != "none":
        p = draw(st.permutations(list(range(n))))
        if mode == "some":
            p = p[:draw(st.integers(1, n))]
        d["out"] = [d["b"][i] for i in p]
        d["map"] = list(p)
    return dict(d=d, o=[dict(z=draw(gen.redshift(d)), c=draw(gen.coeffs(d))) for _ in range(draw(st.integers(1, 8)))],
                arr=draw(st.booleans()), w=draw(st.sampled_from(gen.CONTAINERS)), m=mode)


def amplitude(m, z, c):
    """Scale of the table entries that enter the interpolation at z, per output band."""
    i = int(np.clip(np.searchsorted(m.grid, z) - 1, 0, len(m.grid) - 2))
    js = [j for j in (i - 1, i, i + 1, i + 2) if 0 <= j < len(m.grid)]
    return (np.max([np.abs(m.node("in", j)[0]) for j in js], axis=0) @ np.abs(c))[m.imap]


@sub("C13", "own", case_, 700, 20000, rule="a redshift other than 0 with a model flux")
def own(case, ctx):
    d = case["d"]
    B = gen.build(d, ctx)
    k, m, w = B.k, B.m, case["w"]
    ctx.label(case["m"])
    for o in case["o"]:
        z = o["z"]
        f, t = m.reconstruct("in", z, o["c"])
        f, t = f[m.imap], t[m.imap]
        amp = amplitude(m, z, o["c"])
        ok = (np.abs(f) > 0) & (np.abs(f) > 1e-3 * amp) & (np.abs(f) > 3 * t)
        # both sides use the same table entries: only float32 sums differ
        tol = 3e-6 + 1.1e-6 * amp / np.where(ok, np.abs(f), 1)
        what = "kcorrect(z=%r, band_shift=z)" % z
        got = ctx.call(what, k.kcorrect, redshift=gen.zwrap(z, w), coeffs=gen.wrap(o["c"], w), band_shift=gen.zwrap(z, w))
        ctx.expect(np.shape(got) == (len(m.imap),), lambda: what + ": shape %s" % (np.shape(got),))
        want = np.where(ok, -2.5 * np.log10(1. + z), 0)
        ctx.within(what, np.where(ok, np.asarray(got, float), 0), want, tol)
        ctx.nt(z != 0 and ok.any())
        # rest-frame shifted band = band observed at the shift, over 1 + b
        a = ctx.call("reconstruct_out", k.reconstruct_out, redshift=np.float32(0.), coeffs=np.float32(o["c"]), band_shift=z)
        b = ctx.call("reconstruct", k.reconstruct, redshift=np.float32(z), coeffs=np.float32(o["c"]))
        ctx.within("reconstruct_out(0, band_shift=b) against reconstruct(b)/(1+b)", a,
                   np.asarray(b, float)[m.imap] / (1. + z), 1.5e-6 * amp + 1e-37)
        r = ctx.call("absmag", k.absmag, redshift=np.float32(max(z, 0.01)), maggies=np.ones(B.nb, np.float32),
                     ivar=np.ones(B.nb, np.float32), coeffs=np.float32(o["c"]), band_shift=z, distance=10.,
                     kcorrect=True)[1] if z >= .01 else None
        if r is not None:
            ctx.within("K-corrections returned by absmag(band_shift=z)", np.where(ok, np.asarray(r, float), 0), want, tol)
    zs = col(case["o"], "z")
    if case["arr"] and len(zs) > 1:
        # an array of objects at one redshift
        z = zs[0]
        got = ctx.call("kcorrect(array, band_shift=z)", k.kcorrect, redshift=np.full(len(zs), z, np.float32),
                       coeffs=gen.wrap(col(case["o"], "c"), w), band_shift=z)
        for i, o in enumerate(case["o"]):
            f, t = m.reconstruct("in", z, o["c"])
            f, t = f[m.imap], t[m.imap]
            amp = amplitude(m, z, o["c"])
            ok = (np.abs(f) > 1e-3 * amp) & (np.abs(f) > 3 * t)
            ctx.within("kcorrect(array, band_shift=z)[%d]" % i, np.where(ok, np.asarray(got[i], float), 0),
                       np.where(ok, -2.5 * np.log10(1. + z), 0), 3e-6 + 1.1e-6 * amp / np.where(ok, np.abs(f), 1))
        ctx.label("array")
