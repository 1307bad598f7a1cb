"""C03: solar and Vega zero points."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


def check(ctx, what, R, c):
    for nm, got in (("sun", R.solar_magnitude), ("vega", R.vega2ab)):
        want, tol = ref.star_mag(c, nm)
        lb = "solar_magnitude" if nm == "sun" else "vega2ab"
        if tol is None or not c.cond() < 50:
            ctx.label(lb + " ambiguous")
        elif want is None:
            ctx.label(lb + " None")
            # ringing of the spline, far from any flux, may be of either sign
            w = ref.star(nm)[0]
            if c.w[-1] >= w[0] and c.w[0] <= w[-1] and got is not None and got > 100.:
                continue
            ctx.expect(got is None, "%s: %s is %r for a bandpass the model has no positive flux in" % (what, lb, got))
        else:
            ctx.label(lb + " number")
            ctx.expect(got is not None, "%s: %s is None, expected %.4f" % (what, lb, want))
            ctx.close("%s: %s" % (what, lb), float(got), want, rtol=0, atol=tol)
            ctx.nt()


@st.composite
def s_gen(draw):
    def r():
        return st.one_of(gen.gauss_resp(80., 3e6), gen.pts_resp(80., 3e6), gen.gauss_resp(1000., 50000.),
                         gen.pts_resp(1000., 50000.))
    return dict(r=[draw(r()) for _ in range(draw(st.integers(1, 3)))], a=draw(st.sampled_from([1e-3, 7., 1e4])),
                dt=draw(st.sampled_from(gen.RESP_TYPES)),
                again=draw(st.booleans()), proj=draw(st.booleans()))


@sub("C03", "generated", s_gen, 1000, 30000, rule="bandpass inside the range of a stellar model")
def generated(case, ctx):
    import kcorrect.response as kr
    made = []
    for spec in case["r"]:
        w, r = gen.resp_arrays(spec)
        wr = gen.resp_cast(w, r, case["dt"])
        if wr is None:
            continue
        w, r = wr
        R = ctx.call("Response", kr.Response, wave=w, response=r)
        made.append((R, ref.Curve(w, r)))
        if case["proj"]:
            ctx.call("project", R.project, wave=np.linspace(500, 20000, 50), flux=np.ones(50))
    for i, (R, c) in enumerate(made):
        if case["again"]:
            ctx.call("set_solar_magnitude", R.set_solar_magnitude)
            ctx.call("set_vega2ab", R.set_vega2ab)
        check(ctx, "bandpass %d of %d" % (i, len(made)), R, c)
    if made:
        spec = case["r"][0]
        w, r = gen.resp_arrays(spec)
        if len(np.unique(w)) == len(w):
            R = ctx.call("Response", kr.Response, wave=w, response=r * case["a"])
            check(ctx, "renormalised", R, ref.Curve(w, r * case["a"]))


@sub("C03", "bundled", lambda: st.lists(st.sampled_from(gen.bundled()), min_size=1, max_size=3, unique=True).map(
     lambda n: dict(n=n)), 300, 2000, rule="bundled bandpass inside the range of a stellar model")
def bundled(case, ctx):
    import kcorrect.response as kr
    f = kr.ResponseDict()
    for n in case["n"]:
        ctx.call("load_response(%s)" % n, f.load_response, n)
    for n in case["n"]:
        check(ctx, n, f[n], gen.curve_of_file(n))


@st.composite
def s_hist(draw):
    """Bandpass objects made, read again and used, the solar and Vega spectra of some changed."""
    spec = st.one_of(gen.file_resp(), gen.gauss_resp(1000., 30000.), gen.pts_resp(1000., 30000.), gen.gauss_resp(80., 3e6))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        ops.append(dict(op=draw(st.sampled_from(["new", "new", "reread", "reread", "shift", "flux", "again"])), r=draw(spec),
                        i=draw(st.integers(0, 9)), z=draw(gen.lin(-.3, 2., 23)), s=draw(st.sampled_from(["solar_sed", "vega_sed"])),
                        fits=draw(st.booleans())))
    return dict(ops=ops)


@sub("C03", "history", s_hist, 240, 8000, rule="a bandpass read again, or made after the stellar spectrum of another was changed")
def history(case, ctx):
    """What happened to one bandpass object, or to the same object before it was read
    again, has no influence on the zero points."""
    import kcorrect.response as kr
    import os
    objs = []               # [Response, curve, own spectra untouched]
    changed = False

    def arrays(spec):
        c = gen.curve(spec)
        return c.w.copy(), c.r.copy()
    for op in case["ops"]:
        kind = op["op"]
        if kind == "new" or not objs:
            if op["r"]["k"] == "file":
                R = ctx.call("Response(filename)", kr.Response, filename=op["r"]["n"] + ".dat")
            else:
                w, r = arrays(op["r"])
                R = ctx.call("Response", kr.Response, wave=w, response=r)
            objs.append([R, gen.curve(op["r"]), True])
            check(ctx, "new bandpass after %d operations" % len(objs), R, objs[-1][1])
            ctx.nt(changed)
            continue
        o = objs[op["i"] % len(objs)]
        if kind == "reread":
            path = gen.resp_name(op["r"]) + ".dat"
            if op["fits"]:
                p = os.path.join(gen.scratch("c03"), "%d.fits" % os.getpid())
                w, r = arrays(op["r"])
                kr.Response(wave=w, response=r).tofits(p)
                ctx.call("fromfits again", o[0].fromfits, p)
                os.unlink(p)
            else:
                ctx.call("fromdat again", o[0].fromdat, path)
            o[1] = gen.curve(op["r"])
            ctx.nt()
            ctx.label("reread")
        elif kind == "again":
            ctx.call("set_solar_magnitude", o[0].set_solar_magnitude)
            ctx.call("set_vega2ab", o[0].set_vega2ab)
        else:
            sed = getattr(o[0], op["s"], None)
            if sed is None:
                continue
            o[2] = False
            changed = True
            if kind == "shift":
                sed.set_redshift(op["z"])
            else:
                sed.restframe_flux = sed.restframe_flux * 3.
                sed.set_redshift(0.)
        if o[2]:
            check(ctx, "bandpass after %s" % kind, o[0], o[1])
            for nm, sed in (("solar_magnitude", "solar_sed"), ("vega2ab", "vega_sed")):
                v, s = getattr(o[0], nm), getattr(o[0], sed, None)
                if v is not None and s is not None:
                    ctx.close("%s against the projection of %s" % (nm, sed),
                              -2.5 * np.log10(float(np.squeeze(o[0].project(sed=s)))), float(v), rtol=0, atol=1e-4)
