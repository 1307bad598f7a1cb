"""C28: malformed requests are rejected instead of giving numbers."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub
from kcv.gen import col
from kcv.props.c11 import same_results

METHODS = dict(fit=("z", "f", "iv"), rec=("z", "c"), out=("z", "c"), k=("z", "c"), abs=("z", "f", "iv", "c"),
               absd=("z", "f", "iv", "c", "D"), der=("z", "c"), derd=("z", "c", "D"), mc=("z", "f", "iv"),
               absmc=("z", "fm", "iv", "cm"), dermc=("z", "cm"))
NAMES = dict(z="redshift", f="maggies", iv="ivar", c="coeffs", D="distance", fm="maggies_mc", cm="coeffs_mc")
# ways to break an array: more or fewer bands/templates, more or fewer objects,
# an axis too few or too many, transposed
BREAK = ["more", "fewer", "moreobj", "fewerobj", "drop", "add0", "addlast", "T", "flat", "moremc", "fewermc", "one", "double"]


def call(k, meth, a, b=0.):
    kw = {NAMES[x]: v for x, v in a.items()}
    if meth in ("fit", "mc"):
        if meth == "mc":
            np.random.seed(1)
            kw["mc"] = 2
        return k.fit_coeffs(**kw)
    if b:
        kw["band_shift"] = b
    m = dict(rec="reconstruct", out="reconstruct_out", k="kcorrect", abs="absmag", absd="absmag", der="derived",
             derd="derived", absmc="absmag_mc", dermc="derived_mc")[meth]
    if meth in ("abs", "absd"):
        kw.update(reconstruct=True, limit=True)
    return getattr(k, m)(**kw)


def broken(x, how, arr, mc=False):
    """x with its shape broken, or None if that would be a valid shape or does not apply."""
    x = np.asarray(x)
    tail = x.ndim - int(arr) - int(mc)      # 1 for band axes, 0 for redshifts
    ax = int(arr) if tail else None
    y = None
    if how in ("more", "fewer") and tail:
        if how == "more":
            y = np.concatenate([x, x.take([0], axis=ax)], axis=ax)
        else:
            y = x.take(range(x.shape[ax] - 1), axis=ax)
    elif how in ("one", "double") and tail:
        # a single band for all of them, or every band twice
        y = x.take([0], axis=ax) if how == "one" else np.concatenate([x, x], axis=ax)
    elif how in ("moreobj", "fewerobj") and arr:
        y = np.concatenate([x, x[:1]], axis=0) if how == "moreobj" else x[:-1]
    elif how in ("moremc", "fewermc"):
        y = (np.concatenate([x, x[..., :1]], axis=-1) if how == "moremc" else x[..., :-1]) if mc else None
    elif how == "drop" and x.ndim > int(mc):
        y = x[..., 0] if not mc else x[0]
    elif how == "add0":
        y = x[None]
    elif how == "addlast":
        y = x[..., None]
    elif how == "T" and x.ndim - int(mc) == 2:
        y = x.swapaxes(0, 1)
    elif how == "flat" and x.ndim - int(mc) == 2:
        y = x.reshape((-1,) + x.shape[2:])
    return None if y is None or y.shape == x.shape else np.array(y)


@st.composite
def shapes_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 5), nz=(2, 4), real=False, zmin_neg=False))
    tries = [dict(m=draw(st.sampled_from(sorted(METHODS))), how=draw(st.sampled_from(BREAK)), arg=draw(st.integers(0, 4)))
             for _ in range(draw(st.integers(1, 10)))]
    return dict(d=d, o=draw(gen.objects(d, n=(1, 4), allzero=0)), arr=draw(st.booleans()), t=tries)


def valid(case, keys):
    o = case["o"]
    pick = (lambda key: np.float32(col(o, key))) if case["arr"] else (lambda key: np.float32(o[0][key]))
    a = dict(z=pick("z"), f=pick("f"), iv=np.maximum(pick("iv"), 0), c=pick("c"), D=pick("D"))
    rs = np.float32([1., 1.25, .75])
    a["fm"], a["cm"] = a["f"][..., None] * rs, a["c"][..., None] * rs
    return {x: a[x] for x in keys}


@sub("C28", "shapes", shapes_, 640, 18000, rule="at least one request was malformed (not only valid variants)")
def shapes(case, ctx):
    d, arr = case["d"], case["arr"]
    k = ctx.call("construction", gen.make, d)
    ctx.label("array" if arr else "scalar")
    first = {}
    for t in case["t"]:
        keys = METHODS[t["m"]]
        a = valid(case, keys)
        if t["m"] not in first:
            first[t["m"]] = ctx.call(t["m"], call, k, t["m"], a)
        key = keys[t["arg"] % len(keys)]
        bad = dict(a)
        mc = key in ("fm", "cm")
        if key == "z" and t["how"] == "drop":
            bad["z"] = None if not arr else np.float32(a["z"][0])
        else:
            if t["m"] == "dermc" and t["how"].endswith("mc"):
                continue                # any number of samples is fine here
            y = broken(a[key], t["how"], arr, mc)
            if y is None:
                continue
            bad[key] = y
        if not arr and key == "z" and t["how"] in ("add0", "addlast") and np.shape(a["z"]) == (1,):
            continue
        ctx.nt()
        ctx.label(t["m"], t["how"])
        ctx.raises("%s with %s of shape %s (others: %s)" % (
            t["m"], NAMES[key], np.shape(bad[key]) if bad[key] is not None else None,
            {NAMES[x]: np.shape(v) for x, v in a.items() if x != key}), call, k, t["m"], bad)
    for m, r in first.items():
        again = ctx.call(m, call, k, m, valid(case, METHODS[m]))
        same_results(ctx, m + " after rejected requests", again, r)


@st.composite
def range_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 5), zpos=True))
    o = draw(gen.objects(d, n=(1, 4), allzero=1))
    return dict(d=d, o=o, arr=draw(st.booleans()), i=draw(st.integers(0, 3)), side=draw(st.sampled_from(["hi", "lo"])),
                by=draw(st.sampled_from([1e-5, 1e-3, .1, 3.])), m=draw(st.sampled_from(["rec", "out", "k", "abs", "der"])),
                via=draw(st.sampled_from(["z", "z", "b"])), w=draw(st.sampled_from(["f4", "f8", "list"])))


@sub("C28", "range", range_, 800, 24000, rule="every case (an out-of-range evaluation)")
def out_of_range(case, ctx):
    """ValueError outside of the tabulated redshift range, object usable after."""
    d, arr, m = case["d"], case["arr"], case["m"]
    z0, z1 = gen.f32(d["z"][0]), gen.f32(d["z"][1])
    rest = z0 <= 0                      # rest-frame evaluations possible
    B = gen.build(d, ctx, None if rest else "Fitter")
    k = B.k
    if not rest:
        m = "rec"
    keys = METHODS[m]
    a = valid(case, keys)
    edge = z1 + case["by"] * (1 + z1) if case["side"] == "hi" else z0 - case["by"] * (1 + abs(z0))
    edge = max(edge, -.9)
    if not (edge > z1 * (1 + 1e-6) + 1e-6 or edge < z0 - 1e-6):
        return
    via = case["via"]
    b = 0.
    bad = dict(a)
    if via == "b" or m == "der":
        # derived, and the output bands of kcorrect and absmag, are evaluated at redshift 0
        via = "b"
        base = 0. if m in ("der", "k", "abs") else float(np.ravel(a["z"])[0] if arr else a["z"])
        b = (edge - base) / (1. + base)
    else:
        i = case["i"] % len(case["o"]) if arr else None
        z = np.array(a["z"], np.float32)
        z[i if arr else ()] = np.float32(edge)
        bad["z"] = z
    if m in ("k", "abs", "der") and via == "z" and edge <= -1:
        return
    ctx.nt()
    ctx.label(m, via, "above" if case["side"] == "hi" else "below", "array" if arr else "scalar",
              "one of several" if arr and len(case["o"]) > 1 and via == "z" else "")
    good = ctx.call(m, call, k, m, a)
    bad = {x: gen.wrap(v, case["w"]) if np.ndim(v) else gen.zwrap(float(v), case["w"]) for x, v in bad.items()}
    # a distance keeps the cosmology out of it (no redshift below -1, none of its own limits)
    if m == "abs":
        bad["D"] = np.float32(col(case["o"], "D")) if arr else np.float32(case["o"][0]["D"])
    ctx.raises("%s at redshift %r%s, range %s" % (m, edge, " by band_shift" if via == "b" else "", [z0, z1]),
               call, k, m, bad, b, exc=ValueError)
    again = ctx.call(m, call, k, m, a)
    same_results(ctx, m + " after a rejected request", again, good)


@st.composite
def construct_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 2), nz=(2, 3), real=False, zmin_neg=False, out=True))
    d["t"]["n"] = 100
    return dict(d=d, how=draw(st.sampled_from(["mapname", "maplong", "mapshort", "outlong", "inname", "outname", "dir",
                                               "outasmap"])),
                i=draw(st.integers(0, 5)), nm=draw(st.sampled_from(["no_such_band", "sdss_r", "", "sdss_r0.dat", "SDSS_R0"])))


@sub("C28", "construct", construct_, 400, 8000, rule="every case (a malformed band list)")
def construct(case, ctx):
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    d, how, i = case["d"], case["how"], case["i"]
    names = [gen.resp_name(s) for s in d["b"]]
    out = [gen.resp_name(s) for s in d.get("out", d["b"])]
    mp = [names[j] for j in d["map"]] if "map" in d else [names[j % len(names)] for j in range(len(out))]
    nm = case["nm"]
    if how == "dir":
        nm = os.path.join(gen.scratch("resp"), "none-%d" % i)
    a = dict(responses=names, responses_out=out, responses_map=mp)
    if how == "mapname":
        mp[i % len(mp)] = nm
    elif how == "outasmap":
        other = "FORS_V_ccd_atm" if "FORS_V_ccd_atm" not in names else "bessell_V"
        if other in names or other not in gen.bundled():
            return
        mp[i % len(mp)] = other          # a bandpass that exists but is not an input
    elif how == "maplong":
        mp.append(names[0])
    elif how == "mapshort":
        mp.pop(i % len(mp))
    elif how == "outlong":
        out.append(names[0])
    elif how in ("inname", "dir"):
        names[i % len(names)] = nm
        if how == "dir" or i % 2:
            a = dict(responses=names)
    elif how == "outname":
        out[i % len(out)] = nm
    ctx.nt()
    ctx.label(how)
    R = kr.ResponseDict()
    T = kt.Template(filename=gen.tmpl_file(d["t"]), interpolate=True)
    before = set(R)
    ctx.raises("Kcorrect(%s)" % how, kk.Kcorrect, templates=T, redshift_range=list(d["z"]), nredshift=d["nz"], **a)
    ctx.expect(nm not in R or nm in before, "the unknown bandpass %r was registered" % nm)
    if how in ("inname", "outname", "dir"):
        ctx.raises("load_response(%r)" % nm, R.load_response, nm)
        ctx.expect(nm not in R or nm in before, "the unknown bandpass %r was registered" % nm)
        ctx.raises("Response(filename=%r)" % (nm + ".none"), kr.Response, filename=nm + ".none")
    # the templates are still good for a valid object
    k = ctx.call("construction after a rejected one", gen.make, d, templates=T)
    k2 = ctx.call("construction", gen.make, d)
    c, z = np.ones(gen.ntmpl(d), np.float32), np.float32(d["z"][1] * .5)
    ctx.close("model fluxes after a rejected construction", k.reconstruct(redshift=z, coeffs=c),
              np.asarray(k2.reconstruct(redshift=z, coeffs=c), float), rtol=1e-6)


@st.composite
def project_(draw):
    nw = draw(st.integers(4, 12))
    return dict(r=draw(gen.resp_any()), nw=nw, ns=draw(st.integers(1, 4)),
                how=draw(st.sampled_from(["short", "long", "short2", "long2", "3d", "wave2d", "noflux", "nowave", "none", "T",
                                          "sed"])), w=draw(st.sampled_from(["f4", "f8", "list"])))


@sub("C28", "project", project_, 500, 10000, shards=4, rule="every case (a malformed spectrum)")
def project(case, ctx):
    import kcorrect.response as kr
    import kcorrect.template as kt
    R = kr.ResponseDict()
    n = gen.resp_name(case["r"])
    R.load_response(n)
    c = gen.curve(case["r"])
    nw, ns, how = case["nw"], case["ns"], case["how"]
    wave = np.linspace(c.w[0] * .9, c.w[-1] * 1.1, nw)
    flux = np.ones((ns, nw)) * 1e-10
    good = ctx.call("project", R[n].project, wave=np.float32(wave), flux=np.float32(flux))
    w, f = wave, flux
    if how == "short":
        f = flux[0, :-1]
    elif how == "long":
        f = np.append(flux[0], 1e-10)
    elif how == "short2":
        f = flux[:, :-1]
    elif how == "long2":
        f = np.concatenate([flux, flux[:, :1]], axis=1)
    elif how == "3d":
        f = flux[None]
    elif how == "wave2d":
        w = wave[None].repeat(ns, 0)
    elif how == "noflux":
        f = None
    elif how == "nowave":
        w = None
    elif how == "none":
        w = f = None
    elif how == "T":
        if nw == ns:
            return
        f = flux.T
    ctx.nt()
    ctx.label(how)
    if how == "sed":
        f = flux[:, :-1] if ns > 1 else np.append(flux[0], 1e-10)
        ctx.raises("SED with %s fluxes on %s wavelengths" % (f.shape, w.shape), kt.SED, wave=np.float32(w), flux=np.float32(f))
    else:
        a = {x: gen.wrap(v, case["w"]) for x, v in (("wave", w), ("flux", f)) if v is not None}
        ctx.raises("project (%s: wave %s, flux %s)" % (how, np.shape(w), np.shape(f)), R[n].project, **a)
    ctx.close("project after a rejected request", ctx.call("project", R[n].project, wave=np.float32(wave),
                                                           flux=np.float32(flux)), np.asarray(good, float), rtol=1e-7)


@st.composite
def utils_(draw):
    shape = draw(st.sampled_from([(), (1,), (2,), (3,), (6,), (2, 3)]))
    return dict(shape=list(shape), nb=draw(st.sampled_from([1, 2, 3, 4, 6, 7, 10])),
                fn=draw(st.sampled_from(["ab", "abiv", "abfix", "abiv2", "asinh", "asinhe", "asinhe2", "asinhx", "floor", "flooriv",
                                         "method"])), w=draw(st.sampled_from(["f4", "f8", "list"])))


@sub("C28", "calibration", utils_, 900, 15000, shards=4, rule="every case (a wrong number of bands)")
def calibration(case, ctx):
    import kcorrect.utils as ku
    from kcv.props.c11 import survey
    shp, nb, fn, w = tuple(case["shape"]), case["nb"], case["fn"], case["w"]
    x, g = gen.wrap(np.ones(shp + (nb,)), w), gen.wrap(np.ones(shp + (5,)), w)
    ctx.nt()
    ctx.label(fn)
    what = "%s with %d bands, leading shape %s" % (fn, nb, shp)
    if fn == "ab":
        ctx.raises(what, ku.sdss_ab_correct, maggies=x)
    elif fn == "abiv":
        ctx.raises(what, ku.sdss_ab_correct, maggies=x, ivar=x)
    elif fn == "abiv2":
        ctx.raises(what, ku.sdss_ab_correct, maggies=g, ivar=x)
    elif fn == "abfix":
        ctx.raises(what, ku.sdss_ab_correct, maggies=g, ivar=g, abfix=[.01] * nb)
    elif fn == "asinh":
        ctx.raises(what, ku.sdss_asinh_to_maggies, mag=x)
    elif fn == "asinhe":
        ctx.raises(what, ku.sdss_asinh_to_maggies, mag=x, mag_err=x, extinction=x)
    elif fn == "asinhe2":
        ctx.raises(what, ku.sdss_asinh_to_maggies, mag=g, mag_err=x)
    elif fn == "asinhx":
        ctx.raises(what, ku.sdss_asinh_to_maggies, mag=g, mag_err=g, extinction=x)
    elif fn == "floor" and len(shp) < 2:
        ctx.raises(what, ku.error_floor, floor=[.1] * 5, maggies=x, ivar=x)
    elif fn == "flooriv" and len(shp) < 2:
        ctx.raises(what, ku.error_floor, floor=[.1] * nb, maggies=x, ivar=g)
    elif fn == "method" and len(shp) < 2:
        k = survey("KcorrectSDSS", True)[0]
        z = np.full(shp, .1, np.float32) if shp else .1
        for m in ("fit_coeffs", "fit_coeffs_asinh"):
            kw = dict(maggies=x, ivar=x) if m == "fit_coeffs" else dict(mag=x, mag_err=x, extinction=x)
            ctx.raises("KcorrectSDSS.%s with %d bands" % (m, nb), getattr(k, m), redshift=z, **kw)
