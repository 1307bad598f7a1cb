"""C11: calls modify neither their inputs nor the state later calls depend on."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

PURE = ["fit", "fit", "mc", "rec", "out", "k", "abs", "der", "absmc", "dermc"]


@st.composite
def case_(draw):
    d0 = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 6), zmin_neg=False, zpos=True))
    cfgs = [d0]
    for _ in range(draw(st.integers(0, 2))):
        d = draw(gen.config(nb=(1, 4), nsed=(1, 1), nz=(2, 6), real=False, zmin_neg=False, zpos=True))
        d["t"] = d0["t"]                     # a template object shared by all fitters
        if draw(st.booleans()):
            for key in ("b", "out", "map"):
                d.pop(key, None)
            for key in ("b", "out", "map"):
                if key in d0:
                    d[key] = d0[key]
        d["it"] = d0.get("it", 1)
        cfgs.append(d)
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        i = draw(st.integers(0, len(cfgs) - 1))
        d = cfgs[i]
        kind = draw(st.sampled_from(PURE + ["bad", "bad", "save", "proj", "new", "util"]))
        if kind in PURE and d["z"][0] > 0:
            # rest-frame bands are outside of the redshift range
            kind = draw(st.sampled_from(["fit", "mc", "rec"]))
        op = dict(i=i, op=kind)
        if kind in PURE:
            op["o"] = draw(gen.objects(d, n=(1, 3), allzero=1))
            op["arr"] = draw(st.booleans())
            op["b"] = draw(gen.band_shift(d))
            op["dist"] = draw(st.booleans())
            op["seed"] = draw(st.integers(0, 999))
            op["w"] = draw(st.sampled_from(["f4", "f8", "ro", "list", "nc", "F"]))
            # the caller works on in the arrays returned, or in those passed
            op["scr"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
        elif kind == "bad":
            op["k"] = draw(st.integers(0, 3))
        elif kind == "proj":
            op["r"] = draw(gen.resp_any())
            op["z"] = draw(gen.lin(0, 3, 30))
        elif kind == "util":
            op["x"] = draw(gen.fluxes(5))
            op["fix"] = draw(st.sampled_from(["f4", "f8", "list"]))
        elif kind == "new":
            # constructor arguments of another range, to be used again by the caller
            op["z"] = [draw(st.sampled_from([-.001, -.1, 0., -.3])), draw(gen.lg(.05, 2.))]
            op["zt"] = draw(st.sampled_from(["list", "f4", "f8"]))
        ops.append(op)
    return dict(cfgs=cfgs, ops=ops)


def args_of(op):
    """Call arguments as a dict (fresh arrays)."""
    o, w = op["o"], op["w"]
    if not op["arr"]:
        o = o[0]
        a = dict(z=gen.zwrap(o["z"], w), f=gen.wrap(o["f"], w), c=gen.wrap(o["c"], w),
                 iv=gen.wrap(np.maximum(o["iv"], 0), w), D=gen.zwrap(o["D"], w))
    else:
        a = dict(z=gen.wrap(col(o, "z"), w), f=gen.wrap(col(o, "f"), w), c=gen.wrap(col(o, "c"), w),
                 iv=gen.wrap(np.maximum(col(o, "iv"), 0), w), D=gen.wrap(col(o, "D"), w))
    if op["op"] in ("absmc", "dermc"):
        rs = 1. + .1 * np.arange(3)
        f, c = np.asarray(a["f"], np.float32), np.asarray(a["c"], np.float32)
        a["fm"] = np.float32(f[..., None] * rs)
        a["cm"] = np.float32(c[..., None] * rs)
        if w == "ro":
            a["fm"].setflags(write=False), a["cm"].setflags(write=False)
    return a


def run(k, op, a):
    kind, b = op["op"], op["b"]
    dist = dict(distance=a["D"]) if op["dist"] else {}
    if kind == "fit":
        return k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"])
    if kind == "mc":
        np.random.seed(op["seed"])
        return k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"], mc=3)
    if kind == "rec":
        return k.reconstruct(redshift=a["z"], coeffs=a["c"])
    if kind == "out":
        return k.reconstruct_out(redshift=0. * np.float32(a["z"]), coeffs=a["c"], band_shift=b)
    if kind == "k":
        return k.kcorrect(redshift=a["z"], coeffs=a["c"], band_shift=b)
    if kind == "abs":
        return k.absmag(redshift=a["z"], maggies=a["f"], ivar=a["iv"], coeffs=a["c"], band_shift=b,
                        reconstruct=True, limit=True, kcorrect=True, **dist)
    if kind == "der":
        return k.derived(redshift=a["z"], coeffs=a["c"], band_shift=b, **dist)
    if kind == "absmc":
        return k.absmag_mc(redshift=a["z"], maggies_mc=a["fm"], ivar=a["iv"], coeffs_mc=a["cm"], band_shift=b,
                           reconstruct=True, kcorrect=True, **dist)
    return k.derived_mc(redshift=a["z"], coeffs_mc=a["cm"], band_shift=b, **dist)


def leaves(x):
    if isinstance(x, dict):
        return [v for key in sorted(x) for v in leaves(x[key])]
    if isinstance(x, (tuple, list)) and len(x) and not np.isscalar(x[0]):
        return [v for y in x for v in leaves(y)]
    return [x]


def scribble(x):
    for a in leaves(x):
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = -12345
        elif isinstance(a, list):
            a[:] = [-12345] * len(a)


def unchanged(ctx, what, old, new):
    for key in old:
        a, b = old[key], new[key]
        ctx.expect(type(a) is type(b), "%s changed the type of its argument %s" % (what, key))
        if isinstance(a, np.ndarray):
            ctx.expect(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes(),
                       lambda: "%s modified its argument %s: %s became %s" % (what, key, a.tolist(), b.tolist()))
        else:
            ctx.expect(a == b or (a != a and b != b), lambda: "%s modified its argument %s" % (what, key))


def same_results(ctx, what, got, want, rtol=1e-6):
    g, w = leaves(got), leaves(want)
    ctx.expect(len(g) == len(w), "%s: %d arrays, %d before" % (what, len(g), len(w)))
    for x, y in zip(g, w):
        x, y = np.asarray(x, float), np.asarray(y, float)
        ctx.expect(x.shape == y.shape, lambda: "%s: shape %s, %s before" % (what, x.shape, y.shape))
        fin = np.isfinite(y)
        ctx.expect((np.isfinite(x) == fin).all(), lambda: "%s: %s, %s before" % (what, x.tolist(), y.tolist()))
        if fin.any():
            ctx.close(what, np.where(fin, x, 0), np.where(fin, y, 0), rtol=rtol, atol=1e-6 * (np.abs(y[fin]).max() > 1e-3))


def tmpl_state(T):
    s = {k: np.array(getattr(T, k)) for k in ("restframe_wave", "restframe_flux", "wave", "flux") + gen.PROPS}
    s["nsed"], s["redshift"] = int(T.nsed), float(T.redshift)
    s["interp"] = T.interp is None
    return s


@sub("C11", "history", case_, 560, 18000,
     rule="at least three operations of two kinds, or several fitters sharing templates")
def history(case, ctx):
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    import kcorrect.utils as ku
    cfgs, ops = case["cfgs"], case["ops"]
    ctx.nt((len(ops) > 2 and len(set(o["op"] for o in ops)) > 1) or len(cfgs) > 1)
    d0 = cfgs[0]
    T = kt.Template(filename=gen.tmpl_file(d0["t"]), interpolate=bool(d0.get("it", 1)))
    t0 = tmpl_state(T)
    objs, lists = [], []

    def mk(d, templates, zr=None):
        names = [gen.resp_name(s) for s in d["b"]]
        a = dict(responses=list(names), redshift_range=zr if zr is not None else [float(x) for x in d["z"]])
        if "out" in d:
            a["responses_out"] = [gen.resp_name(s) for s in d["out"]]
        if "map" in d:
            a["responses_map"] = [names[i] for i in d["map"]]
        keep = copy.deepcopy(a)
        k = kk.Kcorrect(templates=templates, nredshift=d["nz"], cosmo=gen.cosmo_of(d), **a)
        lists.append((a, keep))
        return k
    for d in cfgs:
        objs.append(mk(d, T))
        ctx.expect(objs[-1].templates is T or len(cfgs) == 1, "the given template object is not used")
    R = kr.ResponseDict()
    used = [gen.resp_name(s) for d in cfgs for s in d["b"] + d.get("out", [])]
    curves = {n: (R[n], np.array(R[n].wave), np.array(R[n].response), R[n].lambda_eff, R[n].solar_magnitude) for n in used}
    done = []
    for op in ops:
        k, d = objs[op["i"]], cfgs[op["i"]]
        kind = op["op"]
        ctx.label(kind)
        if kind in PURE:
            a = args_of(op)
            old = copy.deepcopy(a)
            res = ctx.call(kind, run, k, op, a)
            unchanged(ctx, kind, old, a)
            cp = copy.deepcopy(res)
            if op["scr"] & 1:
                ctx.label("returned arrays overwritten")
                before = [copy.deepcopy(r) for o_, r, c in done]
                scribble(res)
                unchanged(ctx, "overwriting what %s returned" % kind, old, a)
                for (o_, r, c), r0 in zip(done, before):
                    same_results(ctx, "a value returned earlier by %s" % o_["op"], r, r0, rtol=0)
                res = copy.deepcopy(res)
            else:
                res0 = copy.deepcopy(res)
            if op["scr"] & 2:
                ctx.label("passed arrays overwritten")
                scribble(a)
                if not op["scr"] & 1:
                    same_results(ctx, "the value of %s after its arguments were overwritten" % kind, res, res0, rtol=0)
            done.append((op, res if not op["scr"] & 1 else cp, cp))
        elif kind == "bad":
            n = len(d["b"])
            z = np.float32(d["z"][1] * 2 + 1)
            bad = [lambda: k.reconstruct(redshift=z, coeffs=np.ones(gen.ntmpl(d), np.float32)),
                   lambda: k.fit_coeffs(redshift=np.float32(.01), maggies=np.ones(n + 1), ivar=np.ones(n + 1)),
                   lambda: k.absmag(redshift=[z], maggies=np.ones((1, n)), ivar=np.ones((1, n)),
                                    coeffs=np.ones((1, gen.ntmpl(d)))),
                   lambda: kk.Kcorrect(responses=["no_such_band"], templates=T, nredshift=3)][op["k"]]
            ctx.raises("an invalid request", bad)
        elif kind == "save":
            p = os.path.join(gen.scratch("c11"), "%d.fits" % os.getpid())
            ctx.call("tofits", k.tofits, p)
            os.unlink(p)
        elif kind == "proj":
            n = gen.resp_name(op["r"])
            R.load_response(n)
            T.set_redshift(op["z"])
            ctx.call("project", R[n].project, wave=T.wave, flux=T.flux)
            if T.interpolate:
                ctx.call("project", R[n].project, sed=T)
            T.set_redshift(0.)
        elif kind == "new":
            mk(d, T, zr=gen.wrap(op["z"], op["zt"]) if op["zt"] != "list" else list(op["z"]))
        elif kind == "util":
            f, iv = np.array(op["x"][0], np.float32), np.array(op["x"][1], np.float32)
            m = np.float32(20. + np.arange(5))
            e = np.abs(f) * 1e6 + np.float32(.01)
            fl = np.float32([.02, .05, .1, .01, .3])
            bands = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
            fix = gen.wrap([.1, -.2, .3, .05, 0.], op["fix"])
            a = dict(f=f, iv=iv, m=m, e=e, fl=fl, bands=bands, fix=fix)
            old = copy.deepcopy(a)
            for _ in range(2):
                got = (ku.sdss_ab_correct(maggies=f, ivar=iv), ku.error_floor(floor=fl, maggies=f, ivar=iv),
                       ku.sdss_ab_correct(maggies=f, ivar=iv, abfix=fix), ku.sdss_ab_correct(maggies=f, abfix=fix),
                       ku.sdss_asinh_to_maggies(mag=m, mag_err=e, extinction=e),
                       ku.maggies2flambda(maggies=f, ivar=iv, responses=bands))
                unchanged(ctx, "a utility function", old, a)
                if _:
                    same_results(ctx, "a utility function called again", got, first)
                first = got
            f2, iv2 = f[None, :].repeat(2, 0), iv[None, :].repeat(2, 0)
            a = dict(f=f2, iv=iv2)
            old = copy.deepcopy(a)
            ku.error_floor(floor=fl, maggies=f2, ivar=iv2), ku.sdss_ab_correct(maggies=f2, ivar=iv2)
            unchanged(ctx, "a utility function", old, a)
    # nothing that was returned, passed or shared has changed
    for op, res, cp in done:
        same_results(ctx, "a value returned earlier by %s" % op["op"], res, cp, rtol=0)
    for a, keep in lists:
        unchanged(ctx, "a constructor", keep, a)
    t1 = tmpl_state(T)
    for key, v in t0.items():
        if isinstance(v, np.ndarray):
            ctx.expect(np.array_equal(v, t1[key]), "templates.%s changed" % key)
        else:
            ctx.expect(v == t1[key], "templates.%s is %r, was %r" % (key, t1[key], v))
    for n, (r, w, v, le, sm) in curves.items():
        ctx.expect(R[n] is r and np.array_equal(r.wave, w) and np.array_equal(r.response, v) and r.lambda_eff == le
                   and r.solar_magnitude == sm, "bandpass %s changed" % os.path.basename(n))
    # repeating the calls, in the other order, on the same and on fresh objects
    fresh = {}
    for op, res, cp in reversed(done):
        again = ctx.call(op["op"] + " repeated", run, objs[op["i"]], op, args_of(op))
        same_results(ctx, "%s repeated after other calls" % op["op"], again, cp)
    for op, res, cp in done:
        i = op["i"]
        if i not in fresh:
            fresh[i] = mk(cfgs[i], kt.Template(filename=gen.tmpl_file(d0["t"]), interpolate=bool(d0.get("it", 1))))
        f = ctx.call(op["op"] + " on a fresh object", run, fresh[i], op, args_of(op))
        same_results(ctx, "%s on a fresh object" % op["op"], cp, f)


@st.composite
def survey_(draw):
    n = draw(st.integers(1, 3))
    cls = draw(st.sampled_from(["KcorrectSDSS", "KcorrectGST"]))
    nb = dict(KcorrectSDSS=5, KcorrectGST=10)[cls]
    o = []
    for _ in range(n):
        f, iv = draw(gen.fluxes(nb))
        o.append(dict(z=draw(gen.lin(.01, .9)), f=f, iv=[max(x, 0.) for x in iv]))
    return dict(cls=cls, ab=draw(st.booleans()), o=o, arr=draw(st.booleans()),
                w=draw(st.sampled_from(["f4", "f8", "ro", "nc", "F"])), op=draw(st.sampled_from(["fit", "mc", "abs", "ab", "asinh"])))


_K = {}


def survey(cls, ab):
    """Survey-class objects, kept: their history must not matter."""
    import kcorrect.kcorrect as kk
    if (cls, ab) not in _K:
        _K[cls, ab] = [getattr(kk, cls)(redshift_range=[0., 1.], nredshift=5, abcorrect=ab) for _ in range(2)]
    return _K[cls, ab]


@sub("C11", "survey", survey_, 360, 10000, rule="AB correction on (the inputs are recalibrated inside)")
def survey_inputs(case, ctx):
    """The AB-correcting classes leave the caller's arrays alone, call after call."""
    import kcorrect.utils as ku
    k, k2 = survey(case["cls"], case["ab"])
    ctx.nt(case["ab"])
    ctx.label(case["cls"], case["op"])
    o = case["o"] if case["arr"] else case["o"][:1]
    z, f, iv = (np.float32(col(o, x)) for x in ("z", "f", "iv"))
    if not case["arr"]:
        z, f, iv = z[0], f[0], iv[0]
    zz = gen.wrap(z, case["w"]) if case["arr"] else gen.zwrap(float(z), case["w"])
    a = dict(z=zz, f=gen.wrap(f, case["w"]), iv=gen.wrap(iv, case["w"]))
    op = case["op"]
    if op == "asinh" and case["cls"] == "KcorrectGST":
        op = "fit"

    def go(k, a):
        if op == "fit":
            return k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"])
        if op == "mc":
            np.random.seed(3)
            return k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"], mc=2)
        if op == "ab":
            return k.to_ab(maggies=a["f"], ivar=a["iv"]), k.to_ab(maggies=a["f"])
        if op == "asinh":
            return k.fit_coeffs_asinh(redshift=a["z"], mag=a["m"], mag_err=a["e"], extinction=a["x"])
        c = np.ones(np.shape(a["z"]) + (5,), np.float32) * np.float32(1e-3)
        return k.absmag(redshift=a["z"], maggies=a["f"], ivar=a["iv"], coeffs=c, reconstruct=True, limit=True)
    if op == "asinh":
        a["m"] = gen.wrap(np.float32(20) + np.float32(np.log10(np.abs(f) * 1e9 + 1)), case["w"])
        a["e"] = gen.wrap(np.abs(f) * 0 + np.float32(.05), case["w"])
        a["x"] = gen.wrap(np.abs(f) * 0 + np.float32(.1), case["w"])
    old = copy.deepcopy(a)
    r1 = ctx.call(op, go, k, a)
    c1 = copy.deepcopy(r1)
    unchanged(ctx, op, old, a)
    r2 = ctx.call(op, go, k, a)
    same_results(ctx, op + " again on the same arrays", r2, c1)
    same_results(ctx, "the value returned by the first " + op, r1, c1, rtol=0)
    r3 = ctx.call(op, go, k2, copy.deepcopy(old))
    same_results(ctx, op + " on another object", r3, c1)
    for obj in (k, k2):
        ctx.expect(list(obj.responses)[-5:] == (["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"] if
                                                case["cls"] == "KcorrectSDSS" else
                                                ["sdss_i0", "sdss_z0", "twomass_J", "twomass_H", "twomass_Ks"]),
                   "responses changed: %s" % (obj.responses,))
