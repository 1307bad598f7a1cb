"""C22: SDSS-to-AB correction applies the stated per-band offsets exactly."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def case_(draw):
    shape = draw(st.sampled_from([(), (), (1,), (2,), (3,), (5,), (6,), (2, 3), (1, 1), (5, 5), (2, 1, 2)]))
    n = int(np.prod(shape)) if shape else 1
    f, iv = [], []
    for _ in range(n):
        base = draw(st.sampled_from([1., 1e-9, 1e-12, 1e3, 1., 1e-9, 1e-16, 1e16]))
        f.append([gen.f32(base * draw(st.sampled_from([1, 1, -1, 0])) * draw(gen.lg(.1, 10, 40))) for _ in range(5)])
        iv.append([gen.f32(draw(st.sampled_from([1, 1, 1, 0, 1, 0, -1])) * draw(gen.lg(.01, 100, 40)) / base**2) for _ in range(5)])
    c = dict(shape=list(shape), f=f, iv=iv, w=draw(st.sampled_from(gen.CONTAINERS)))
    if draw(st.booleans()):
        c["fix"] = [draw(st.one_of(st.just(0.), gen.lin(-3, 3, 600))) for _ in range(5)]
        c["fw"] = draw(st.sampled_from(["list", "f4", "f8", "tuple"]))
    return c


@sub("C22", "function", case_, 2400, 60000, rule="a nonzero flux (the offsets of the five bands all differ)")
def function(case, ctx):
    import kcorrect.utils as ku
    shp = tuple(case["shape"]) + (5,)
    f, iv = np.float32(case["f"]).reshape(shp), np.float32(case["iv"]).reshape(shp)
    fix = case.get("fix")
    kw = dict(abfix=gen.wrap(fix, case["fw"])) if fix else {}
    fw, ivw = gen.wrap(f, case["w"]), gen.wrap(iv, case["w"])
    ctx.nt(np.any(f))
    ctx.label("ndim %d" % len(shp), "own offsets" if fix else "default offsets", case["w"])
    wf, wi = ref.sdss_ab(f.astype(float), iv.astype(float), np.float64(np.float32(fix)) if fix else ref.ABFIX)
    r = ctx.call("sdss_ab_correct", ku.sdss_ab_correct, maggies=fw, ivar=ivw, **kw)
    ctx.expect(isinstance(r, tuple) and len(r) == 2, "sdss_ab_correct with ivar does not return two arrays")
    ctx.close("corrected maggies", r[0], wf, rtol=2e-6)
    ctx.close("corrected ivar", r[1], wi, rtol=4e-6)
    ctx.expect(np.array_equal(np.asarray(r[1]) == 0, iv == 0), "zero weights changed")
    ctx.expect(np.array_equal(np.sign(r[0]), np.sign(f)), "signs of the fluxes changed")
    ok = (iv > 0) & (f != 0)
    sn = np.abs(f.astype(float)) * np.sqrt(np.maximum(iv.astype(float), 0))
    ctx.close("signal to noise", np.where(ok, np.abs(np.asarray(r[0], float)) * np.sqrt(np.maximum(np.asarray(r[1], float), 0)), 0),
              np.where(ok, sn, 0), rtol=4e-6)
    g = ctx.call("sdss_ab_correct", ku.sdss_ab_correct, maggies=fw, **kw)
    ctx.expect(not isinstance(g, tuple), "sdss_ab_correct without ivar returns a tuple")
    ctx.close("corrected maggies without ivar", g, wf, rtol=2e-6)
    # undone by the opposite offsets
    back = [-x for x in (fix or [-0.036, 0.012, 0.010, 0.028, 0.040])]
    u = ctx.call("sdss_ab_correct", ku.sdss_ab_correct, maggies=r[0], ivar=r[1], abfix=back)
    ctx.close("maggies after applying opposite offsets", u[0], f.astype(float), rtol=4e-6)
    ctx.close("ivar after applying opposite offsets", u[1], iv.astype(float), rtol=8e-6)
    if np.size(f) and np.ndim(f) > 1:
        i = tuple(0 for _ in case["shape"])
        one = ctx.call("sdss_ab_correct", ku.sdss_ab_correct, maggies=f[i], ivar=iv[i], **kw)
        ctx.close("maggies of one object alone", one[0], np.asarray(r[0], float)[i], rtol=1e-6)
        ctx.close("ivar of one object alone", one[1], np.asarray(r[1], float)[i], rtol=1e-6)


@sub("C22", "methods", case_, 700, 20000, rule="a nonzero flux")
def methods(case, ctx):
    """to_ab() of the survey classes applies it to the five SDSS bands only."""
    from kcv.props.c11 import survey
    shp = tuple(case["shape"]) + (5,)
    f, iv = np.float32(case["f"]).reshape(shp), np.float32(case["iv"]).reshape(shp)
    wf, wi = ref.sdss_ab(f.astype(float), iv.astype(float))
    k = survey("KcorrectSDSS", True)[0]
    ctx.nt(np.any(f))
    r = ctx.call("KcorrectSDSS.to_ab", k.to_ab, maggies=gen.wrap(f, case["w"]), ivar=gen.wrap(iv, case["w"]))
    ctx.close("KcorrectSDSS.to_ab maggies", r[0], wf, rtol=2e-6)
    ctx.close("KcorrectSDSS.to_ab ivar", r[1], wi, rtol=4e-6)
    ctx.close("KcorrectSDSS.to_ab maggies alone", ctx.call("to_ab", k.to_ab, maggies=f), wf, rtol=2e-6)
    g = survey("KcorrectGST", True)[0]
    F = np.concatenate([f[..., :2], f, f[..., 2:]], axis=-1)
    IV = np.concatenate([iv[..., :2], iv, iv[..., 2:]], axis=-1)
    WF = np.concatenate([f[..., :2], wf, f[..., 2:]], axis=-1)
    WI = np.concatenate([iv[..., :2], wi, iv[..., 2:]], axis=-1)
    r = ctx.call("KcorrectGST.to_ab", g.to_ab, maggies=F, ivar=IV)
    ctx.close("KcorrectGST.to_ab maggies", r[0], WF, rtol=2e-6)
    ctx.close("KcorrectGST.to_ab ivar", r[1], WI, rtol=4e-6)
    ctx.close("KcorrectGST.to_ab maggies alone", ctx.call("to_ab", g.to_ab, maggies=F), WF, rtol=2e-6)
