"""C23: asinh magnitudes convert to the fluxes and errors they encode."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def case_(draw):
    n = draw(st.integers(0, 6))
    shape = draw(st.sampled_from([(n,), (n,), (n, 2)])) if n else ()
    num = int(np.prod(shape)) if shape else 1
    f = [[draw(st.sampled_from([1, 1, 1, -1, 0])) * draw(gen.lg(1e-12, 1e-4, 200)) for _ in range(5)] for _ in range(num)]
    e = [[draw(gen.lg(.001, 3., 60)) for _ in range(5)] for _ in range(num)]
    x = [[draw(st.one_of(st.just(0.), gen.lin(0, 6, 200), gen.lin(-.5, .5, 20))) for _ in range(5)] for _ in range(num)]
    return dict(shape=list(shape), f=f, e=e, x=x, w=draw(st.sampled_from(gen.CONTAINERS)), ext=draw(st.booleans()))


@sub("C23", "conversion", case_, 2400, 60000, rule="every case (five bands with fluxes from -1e-4 to 1e-4)")
def conversion(case, ctx):
    import kcorrect.utils as ku
    shp = tuple(case["shape"]) + (5,)
    # magnitudes that encode the chosen fluxes, as single precision
    mag = np.float32(ref.asinh_mag(np.array(case["f"]))).reshape(shp)
    err = np.float32(case["e"]).reshape(shp)
    ext = np.float32(case["x"]).reshape(shp) if case["ext"] else None
    w = case["w"]
    kw = dict(extinction=gen.wrap(ext, w)) if case["ext"] else {}
    ctx.nt()
    ctx.label("ndim %d" % len(shp), "extinction" if case["ext"] else "no extinction", w)
    if (np.array(case["f"]) < 0).any():
        ctx.label("negative fluxes")
    wf, wi = ref.asinh_to_maggies(mag, err, ext)
    r = ctx.call("sdss_asinh_to_maggies", ku.sdss_asinh_to_maggies, mag=gen.wrap(mag, w), mag_err=gen.wrap(err, w), **kw)
    ctx.expect(isinstance(r, tuple) and len(r) == 2, "does not return fluxes and inverse variances")
    # rounding of the magnitude argument (below 40) in single precision
    e10 = 10.**(.4 * (ext.astype(float) if ext is not None else np.zeros(shp)))
    tol = 6e-6 * 2 * ref.SOFT * np.cosh(-np.log(ref.SOFT) - .4 * np.log(10.) * mag.astype(float)) * e10 + 2e-6 * np.abs(wf)
    ctx.within("maggies", r[0], wf, tol * 1.2)
    ctx.close("ivar", r[1], wi, rtol=4e-5)
    g = ctx.call("sdss_asinh_to_maggies", ku.sdss_asinh_to_maggies, mag=gen.wrap(mag, w), **kw)
    ctx.expect(not isinstance(g, tuple), "without magnitude errors it returns a tuple")
    ctx.within("maggies without magnitude errors", g, wf, tol * 1.2)
    # encoding the (unextincted) flux gives the magnitude back
    back = ref.asinh_mag(np.asarray(g, float) / e10)
    ctx.within("asinh magnitude of the flux returned", back, mag.astype(float), 4e-5)
    # signal to noise does not depend on the extinction
    z = ctx.call("sdss_asinh_to_maggies", ku.sdss_asinh_to_maggies, mag=mag, mag_err=err)
    big = np.abs(wf) > 1e3 * tol
    s0 = np.where(big, np.asarray(z[0], float) * np.sqrt(np.asarray(z[1], float)), 0)
    s1 = np.where(big, np.asarray(r[0], float) * np.sqrt(np.asarray(r[1], float)), 0)
    ctx.close("signal to noise with extinction", s1, s0, rtol=3e-3)
    # one object alone
    if len(shp) > 1 and shp[0]:
        i = tuple(s - 1 for s in case["shape"])
        kx = dict(extinction=ext[i]) if case["ext"] else {}
        one = ctx.call("sdss_asinh_to_maggies", ku.sdss_asinh_to_maggies, mag=mag[i], mag_err=err[i], **kx)
        ctx.within("maggies of one object alone", one[0], np.asarray(r[0], float)[i], tol[i])
        ctx.close("ivar of one object alone", one[1], np.asarray(r[1], float)[i], rtol=1e-5)
