"""C25: the error floor raises fractional errors to the floor and changes nothing else."""
import copy

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub


@st.composite
def case_(draw):
    nb = draw(st.integers(1, 8))
    n = draw(st.integers(0, 6))
    fl = [draw(st.sampled_from([0., .01, .02, .05, .1, .5, 2.])) if draw(st.booleans()) else draw(gen.lg(1e-3, 1, 60))
          for _ in range(nb)]
    f, iv = [], []
    for _ in range(max(n, 1)):
        base = draw(st.sampled_from([1., 1e-9, 1e-7, 1e-12, 1e3]))
        fr, ir = [], []
        for j in range(nb):
            x = base * draw(st.sampled_from([1, 1, 1, -1, -1, 0])) * draw(gen.lg(.01, 100, 60))
            # fractional error, often near the floor
            e = draw(st.one_of(gen.lg(1e-3, 3, 60), st.sampled_from([.5, .9, .99, 1.01, 1.1, 2.]).map(
                lambda q, j=j: q * max(fl[j], 1e-3))))
            fr.append(gen.f32(x))
            ir.append(gen.f32(draw(st.sampled_from([1, 1, 1, 1, 0, -1])) / (e * (abs(x) or base))**2))
        if draw(st.integers(0, 5)) == 0:
            # not measured
            fr = [float("nan") if v <= 0 else x for x, v in zip(fr, ir)]
        f.append(fr), iv.append(ir)
    return dict(fl=fl, f=f if n else f[0], iv=iv if n else iv[0], w=draw(st.sampled_from(gen.CONTAINERS)))


@sub("C25", "floor", case_, 4000, 120000,
     rule="some band below its floor and some band that must not change")
def floor_(case, ctx):
    import kcorrect.utils as ku
    fl, f, iv = np.float32(case["fl"]), np.float32(case["f"]), np.float32(case["iv"])
    w = case["w"]
    a = [gen.wrap(x, w) for x in (fl, f, iv)]
    old = copy.deepcopy(a)
    r = ctx.call("error_floor", ku.error_floor, floor=a[0], maggies=a[1], ivar=a[2])
    for x, y in zip(a, old):
        ctx.expect(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True), "error_floor modified its arguments")
    F, IV, FL = f.astype(float), iv.astype(float), np.broadcast_to(fl.astype(float), f.shape)
    ctx.expect(np.shape(r) == F.shape, lambda: "error_floor: shape %s, expected %s" % (np.shape(r), F.shape))
    g = np.asarray(r, float)
    pos = IV > 0
    with np.errstate(divide="ignore", invalid="ignore"):
        ferr = np.where(pos, 1. / (np.abs(F) * np.sqrt(np.where(pos, IV, 1.))), np.inf)
        cap = 1. / (np.abs(F) * FL)**2
    low = pos & (F != 0) & (ferr < FL)
    low &= np.isfinite(F)
    keep = ~pos | (F == 0) | (ferr > FL * (1 + 1e-5))
    ctx.nt(low.any() and keep.any())
    ctx.label("%d-d" % F.ndim, w)
    if (low & (F < 0)).any():
        ctx.label("negative flux below the floor")
    if (pos & (F == 0)).any():
        ctx.label("zero flux")
    ctx.same("inverse variances at or above the floor, or without weight", g[keep], IV[keep])
    exp = np.where(low, cap, IV)
    ctx.close("inverse variances", g, exp, rtol=3e-6)
    ctx.expect((g <= IV * (1 + 1e-6)).all() if (IV >= 0).all() else (g[pos] <= IV[pos] * (1 + 1e-6)).all(),
               "an inverse variance increased")
    # idempotent; independent of the sign
    again = ctx.call("error_floor", ku.error_floor, floor=fl, maggies=f, ivar=np.float32(g))
    ctx.close("applied again", again, g, rtol=3e-6)
    sg = ctx.call("error_floor", ku.error_floor, floor=fl, maggies=-f, ivar=iv)
    ctx.close("with the opposite fluxes", sg, g, rtol=1e-6)
    # each object and band on its own
    if F.ndim == 2:
        for i in range(len(F)):
            one = ctx.call("error_floor", ku.error_floor, floor=fl, maggies=f[i], ivar=iv[i])
            ctx.close("object %d alone" % i, one, g[i], rtol=1e-6)
    else:
        two = ctx.call("error_floor", ku.error_floor, floor=fl, maggies=f[None, :], ivar=iv[None, :])
        ctx.close("as an array of one object", two, g[None, :], rtol=1e-6)
    j = len(fl) // 2
    one = ctx.call("error_floor", ku.error_floor, floor=fl[j:j + 1], maggies=f[..., j:j + 1], ivar=iv[..., j:j + 1])
    ctx.close("band %d alone" % j, one, g[..., j:j + 1], rtol=1e-6)


@st.composite
def whole_(draw):
    nb, n = draw(st.integers(1, 5)), draw(st.integers(0, 4))
    shape = (n, nb) if n else (nb,)
    size = int(np.prod(shape))
    f = draw(st.lists(st.integers(-200, 20000), min_size=size, max_size=size))
    iv = draw(st.lists(st.one_of(st.integers(-2, 2000), st.sampled_from([0, 1, 4])), min_size=size, max_size=size))
    return dict(fl=[draw(st.sampled_from([0, 1, .02, .05, .3, .7])) for _ in range(nb)], shape=list(shape), f=f, iv=iv,
                w=draw(st.sampled_from(["list", "i8", "i4", "i2", "mixed"])))


@sub("C25", "whole", whole_, 600, 20000, rule="a band whose new inverse variance is not a whole number")
def whole(case, ctx):
    """Integer fluxes and inverse variances (counts, nanomaggies) give what the same
    numbers in floating point give."""
    import kcorrect.utils as ku
    f = np.array(case["f"]).reshape(case["shape"])
    iv = np.array(case["iv"]).reshape(case["shape"])
    w = case["w"]
    if w == "list":
        a = f.tolist(), iv.tolist()
    elif w == "mixed":
        a = np.float32(f), iv
    else:
        a = f.astype(w), iv.astype(w)
    r = np.asarray(ctx.call("error_floor of integers", ku.error_floor, floor=case["fl"], maggies=a[0], ivar=a[1]), float)
    want = np.asarray(ctx.call("error_floor", ku.error_floor, floor=case["fl"], maggies=np.float64(f), ivar=np.float64(iv)), float)
    ctx.nt((want != np.round(want)).any())
    ctx.label(w)
    ctx.close("integers (%s) against floating point" % w, r, want, rtol=3e-6)
    cap = 1. / (np.maximum(np.abs(f), 1e-30) * np.maximum(np.broadcast_to(case["fl"], f.shape), 1e-9))**2
    exp = np.where((iv > 0) & (f != 0), np.minimum(iv, np.where(np.broadcast_to(case["fl"], f.shape) > 0, cap, np.inf)), iv)
    ctx.close("integers (%s)" % w, r, exp, rtol=3e-6)
