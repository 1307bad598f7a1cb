"""C06: FITS round trips of SEDs, templates and bandpasses."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


def path(n):
    return os.path.join(gen.scratch("c06"), "%s%d.fits" % (n, os.getpid()))


@st.composite
def square_sed(draw):
    """As many spectra as wavelength samples."""
    s = dict(draw(gen.pts_sed(nmax=9)))
    f = s["f"][0]
    s["f"] = [[x + i for x in f[i:] + f[:i]] for i in range(len(f))]
    return s


@st.composite
def s_sed(draw):
    return dict(s=draw(st.one_of(gen.pts_sed(nmax=20), gen.smooth_sed(n=(10, 80)), square_sed())),
                dt=draw(st.sampled_from(["f4", "f8"])), bin=draw(st.booleans()),
                z=draw(st.one_of(st.just(0.), gen.lin(-0.5, 5.))), d1=draw(st.booleans()),
                it=draw(st.booleans()), chain=draw(st.integers(1, 3)), ext=draw(st.sampled_from(["FLUX", "FLUX", "SPEC"])),
                same=draw(st.booleans()), old=draw(st.booleans()),
                hole=draw(st.sampled_from([None] * 5 + [float("nan"), float("inf")])), hi=draw(st.integers(0, 99)),
                a=draw(st.sampled_from([1., 1., 1., 1., -1., 1e10, -300., 1e-12, -1e20])))


def check_sed(ctx, what, s, w, f, it=None):
    ctx.same(what + ": restframe_wave", np.asarray(s.restframe_wave, float), w)
    ctx.same(what + ": restframe_flux", np.asarray(s.restframe_flux, float), f)
    ctx.same(what + ": wave", np.asarray(s.wave, float), w)
    ctx.same(what + ": flux", np.asarray(s.flux, float), f)
    ctx.expect(float(s.redshift) == 0., what + ": redshift %r" % s.redshift)
    ctx.expect(int(s.nsed) == f.shape[0] and int(s.nwave) == len(w), what + ": nsed/nwave %s/%s" % (s.nsed, s.nwave))
    if it is not None:
        ctx.expect((s.interp is not None) == it, what + ": interp is %r" % s.interp)


@sub("C06", "sed", s_sed, 1300, 40000, rule="several spectra, or written while redshifted, or a chain of round trips")
def sed(case, ctx):
    import astropy.io.fits as fits
    import kcorrect.template as kt
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(case["dt"]), (f * case["a"]).astype(case["dt"])
    n = f.shape[0]
    if case["hole"] is not None:
        # an undefined sample
        f[case["hi"] % n, case["hi"] % len(w)] = case["hole"]
        ctx.label("undefined sample")
    s = ctx.call("SED", kt.SED, wave=w, flux=f[0] if n == 1 and case["d1"] else f, interpolate=False)
    if case["bin"]:
        s.binimage = True
        w1, f1 = w.astype(float), f.astype(float)
    else:
        w1, f1 = w.astype(np.float32).astype(float), f.astype(np.float32).astype(float)
    ctx.label("image layout" if case["bin"] else "table layout", "nsed=1" if n == 1 else "nsed>1")
    ctx.nt(n > 1 or case["z"] != 0 or case["chain"] > 1)
    p = path("s")
    if case["old"]:
        with open(p, "w") as fp:
            fp.write("something else")
    elif os.path.exists(p):
        os.unlink(p)
    ext = case["ext"]
    for i in range(case["chain"]):
        if case["z"] != 0:
            ctx.call("set_redshift", s.set_redshift, case["z"])
        q = p if case["same"] else path("s%d_" % i)
        ctx.call("tofits", s.tofits, q, ext=ext)
        with fits.open(q) as hd:
            if case["bin"]:
                ctx.same("WAVE image", np.array(hd["WAVE"].data, float), w1)
                ctx.same("FLUX image", np.array(hd["FLUX"].data, float), f1)
            else:
                ctx.same("wave column", np.array(hd[ext].data["wave"], float).reshape(-1), w1)
                ctx.same("flux column", np.array(hd[ext].data["flux"], float).reshape(n, -1), f1)
        s = ctx.call("SED(filename)", kt.SED, filename=q, ext=ext, interpolate=case["it"] and (np.diff(w1) > 0).all() and case["hole"] is None)
        check_sed(ctx, "round trip %d" % (i + 1), s, w1, f1)
    for i in range(case["chain"]):
        if not case["same"]:
            os.unlink(path("s%d_" % i))


@st.composite
def s_rows(draw):
    return dict(s=draw(st.one_of(gen.pts_sed(nmax=12), gen.smooth_sed(n=(10, 40)))), rows=draw(st.sampled_from([1, 2, 2, 3, 7])),
                vec=draw(st.booleans()), dt=draw(st.sampled_from(["f4", "f8"])), extra=draw(st.booleans()), cls=draw(st.sampled_from(["SED", "SED", "Template"])),
                order=draw(st.booleans()), z=draw(gen.lin(0, 3)), ext=draw(st.sampled_from(["FLUX", "SPEC"])))


@sub("C06", "rows", s_rows, 400, 12000, rule="a table of several rows")
def rows(case, ctx):
    """Tables written by others: only the first row counts; other columns do not."""
    import astropy.io.fits as fits
    import kcorrect.template as kt
    w, f = gen.sed_arrays(case["s"])
    w, f = w.astype(case["dt"]), f.astype(case["dt"])
    if (np.diff(w) <= 0).any():
        return
    n, nr = f.shape[0], case["rows"]
    vec = case["vec"] and n == 1
    cols = [("wave", case["dt"], (len(w),)), ("flux", case["dt"], (len(w),) if vec else (n, len(w)))]
    if case["extra"]:
        cols.append(("quality", "i4"))
    t = np.zeros(nr, dtype=cols[::-1] if case["order"] else cols)
    for i in range(nr):
        t["wave"][i], t["flux"][i] = w * (1 + .5 * i), f[0] + i if vec else f + i
    cls = case["cls"]
    ext = "FLUX" if cls == "Template" else case["ext"]
    hd = [fits.PrimaryHDU(), fits.BinTableHDU(t, name=ext)]
    if cls == "Template":
        hd += [fits.ImageHDU(np.arange(n, dtype=np.float32) + i, name=p.upper()) for i, p in enumerate(gen.PROPS)]
    p = path("rows")
    fits.HDUList(hd).writeto(p, overwrite=True)
    s = ctx.call("%s(filename)" % cls, getattr(kt, cls), filename=p, interpolate=True, **(dict(ext=ext) if cls == "SED" else {}))
    ctx.label("%d rows" % nr, cls)
    ctx.nt(nr > 1)
    check_sed(ctx, "%s of a table of %d rows" % (cls, nr), s, w.astype(float), f.astype(float), True)
    if cls == "Template":
        for i, q in enumerate(gen.PROPS):
            ctx.same(q, np.asarray(getattr(s, q), float), np.arange(n) + float(i))
    s.set_redshift(case["z"])
    ctx.close("redshifted", s.flux, f / (1 + case["z"]), rtol=3e-7)
    os.unlink(p)


@st.composite
def s_tmpl(draw):
    t = draw(st.one_of(gen.templates(n=(20, 60)), gen.templates(n=(20, 60)), st.sampled_from([gen.DEFAULT_T, gen.LRG_T])))
    return dict(t=t, z=draw(st.one_of(st.just(0.), gen.lin(-0.5, 5.))), it=draw(st.booleans()),
                chain=draw(st.integers(1, 3)), same=draw(st.booleans()), d1=draw(st.booleans()))


def check_tmpl(ctx, what, T, w, f, props, it):
    check_sed(ctx, what, T, w, f, it)
    for k, v in props.items():
        ctx.same("%s: %s" % (what, k), np.asarray(getattr(T, k), float), v)


@sub("C06", "template", s_tmpl, 700, 20000, rule="every case (all stellar-population numbers differ between templates)")
def template(case, ctx):
    import astropy.io.fits as fits
    import kcorrect.template as kt
    src = gen.tmpl_file(case["t"])
    w, f, props = gen.tmpl_arrays(case["t"])
    n = f.shape[0]
    if n == 1 and case["d1"] and case["t"]["k"] == "syn" and case["t"]["lay"] == "table":
        # a single spectrum may be stored as a plain vector
        row = np.zeros(1, dtype=[("wave", np.float32, len(w)), ("flux", np.float32, len(w))])
        row["wave"], row["flux"] = w, f[0]
        with fits.open(src) as hd:
            new = fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(row, name="FLUX")] + [x.copy() for x in hd[2:]])
            new.writeto(path("v"), overwrite=True)
        src = path("v")
        ctx.label("vector flux")
    T = ctx.call("Template", kt.Template, filename=src, interpolate=case["it"])
    check_tmpl(ctx, "as read", T, w, f, props, case["it"])
    p = path("t")
    if os.path.exists(p) and not case["same"]:
        os.unlink(p)
    for i in range(case["chain"]):
        if case["z"]:
            ctx.call("set_redshift", T.set_redshift, case["z"])
        q = p if case["same"] else path("t%d_" % i)
        ctx.call("tofits", T.tofits, q)
        with fits.open(q) as hd:
            for k, v in props.items():
                ctx.same("%s extension" % k.upper(), np.array(hd[k.upper()].data, float), v)
        T = ctx.call("Template(round trip)", kt.Template, filename=q, interpolate=case["it"])
        check_tmpl(ctx, "round trip %d" % (i + 1), T, w, f, props, case["it"])
    for i in range(case["chain"]):
        if not case["same"]:
            os.unlink(path("t%d_" % i))
    ctx.label("bundled" if case["t"]["k"] == "file" else case["t"]["lay"])
    ctx.nt()


@st.composite
def s_resp(draw):
    return dict(r=draw(st.one_of(gen.pts_resp(unsorted=True), gen.gauss_resp(), gen.file_resp())),
                dt=draw(st.sampled_from(gen.RESP_TYPES)), chain=draw(st.integers(1, 3)), old=draw(st.booleans()),
                into=draw(st.sampled_from(["new", "other"])))


@sub("C06", "response", s_resp, 500, 15000, rule="every case")
def response(case, ctx):
    import kcorrect.response as kr
    if case["r"]["k"] == "file":
        f = kr.ResponseDict()
        f.load_response(case["r"]["n"])
        R, c = f[case["r"]["n"]], gen.curve(case["r"])
    else:
        w, r = gen.resp_arrays(case["r"])
        wr = gen.resp_cast(w, r, case["dt"])
        if wr is None:
            return
        w, r = wr
        ctx.label(case["dt"])
        R, c = ctx.call("Response", kr.Response, wave=w, response=r), ref.Curve(w, r)
    p = path("r")
    if os.path.exists(p):
        os.unlink(p)
    if case["old"]:
        with open(p, "w") as fp:
            fp.write("something else")
    first = R
    for i in range(case["chain"]):
        ctx.call("tofits", R.tofits, p)
        if case["into"] == "other":
            # an object that already holds another curve
            R = kr.Response(wave=np.linspace(2e4, 3e4, 9 + i), response=np.array([0., 0, 1, 2, 1, 1, 0, 0, 0] + i * [0.]))
            ctx.label("into an object holding another curve")
        else:
            R = kr.Response()
        ctx.call("fromfits", R.fromfits, p)
        what = "round trip %d" % (i + 1)
        ctx.same(what + ": wave", np.asarray(R.wave, float), c.w)
        ctx.same(what + ": response", np.asarray(R.response, float), c.r)
        ctx.expect(int(R.nwave) == len(c.w), what + ": nwave")
        for k in ("lambda_eff", "fwhm", "fwhm_low", "fwhm_high", "solar_magnitude", "vega2ab"):
            a, b = getattr(first, k), getattr(R, k)
            ctx.expect((a is None) == (b is None), "%s: %s %r, was %r" % (what, k, b, a))
            if a is not None:
                ctx.close("%s: %s" % (what, k), b, a, rtol=1e-6, atol=1e-6)
        x = np.linspace(c.w[0], c.w[-1], 11)
        ctx.close(what + ": interp", R.interp(x), first.interp(x), rtol=1e-6, atol=1e-6 * np.abs(c.r).max())
    ctx.nt()
