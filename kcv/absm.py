"""Shared between C14, C15, C16: calling absmag and judging its outputs."""
import numpy as np
from hypothesis import strategies as st

from . import gen

ORDER = ["reconstruct", "limit", "k"]


@st.composite
def case_(draw, n=(1, 5), allzero=2, **kw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 5), nz=(2, 8), **kw))
    o = draw(gen.objects(d, n=n, allzero=allzero, positive=True))
    dist = draw(st.booleans())
    if dist and draw(st.integers(0, 2)) == 0:
        o[0]["z"] = 0. if d["z"][0] <= 0 else gen.f32(d["z"][0])
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), dist=dist, w=draw(st.sampled_from(gen.CONTAINERS)),
                opt=draw(st.lists(st.booleans(), min_size=3, max_size=3)), arr=draw(st.booleans()))


def call(ctx, k, case, o, opt, arr=False):
    """dict of the outputs asked for; o: one object, or a list with arr."""
    w = case["w"]
    x = (lambda key: gen.wrap(gen.col(o, key), w)) if arr else (lambda key: gen.wrap(o[key], w))
    kw = dict(redshift=x("z") if arr else gen.zwrap(o["z"], w), maggies=x("f"), ivar=x("iv"), coeffs=x("c"))
    if case["b"]:
        kw["band_shift"] = case["b"]
    if case["dist"]:
        kw["distance"] = x("D") if arr else gen.zwrap(o["D"], w)
    names = ["absmag"]
    for on, nm, key in zip(opt, ORDER, ("reconstruct", "limit", "kcorrect")):
        if on:
            kw[key] = True
            names.append(nm)
    what = "absmag(%s%s)" % (", ".join(names[1:]), "; array" if arr else "")
    r = ctx.call(what, k.absmag, **kw)
    if len(names) == 1:
        ctx.expect(not isinstance(r, (tuple, list)), what + ": a tuple although no optional output was asked for")
        r = (r,)
    ctx.expect(isinstance(r, (tuple, list)) and len(r) == len(names),
               lambda: "%s: %d outputs, asked for %s" % (what, len(r), names))
    return what, dict(zip(names, r))


def want(m, case, o):
    return m.absmag(o["z"], o["f"], o["iv"], o["c"], case["b"], o["D"] if case["dist"] else None)


def judge(ctx, what, got, wt, tag=""):
    """got against (value, tolerance); -9999 exactly where expected.  Returns the
    mask of judged, defined bands."""
    v, t = wt
    ctx.expect(np.shape(got) == np.shape(v), lambda: "%s: shape %s, expected %s" % (what, np.shape(got), np.shape(v)))
    g = np.asarray(got, float)
    und = v == -9999.
    if und.any():
        ctx.same(what + " where undefined", g[und], v[und])
    ok = ~und & np.isfinite(v) & (t < .02)
    ctx.expect(not (g[ok] == -9999.).any(), lambda: "%s: -9999 in a band whose value is %s" % (what, v[ok].tolist()))
    ctx.within(what, np.where(ok, g, 0), np.where(ok, v, 0), np.where(ok, t, 1))
    return ok


def rows(wts):
    return np.array([a for a, _ in wts]), np.array([b for _, b in wts])
