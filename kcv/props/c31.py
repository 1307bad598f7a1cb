"""C31: copies, pickles and threads."""
import copy
import os
import pickle
import subprocess
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub
from kcv.props.c11 import same_results
from kcv.props.c21 import attrs, compare_attrs, one, results

HOW = ["deepcopy", "pickle2", "pickle4", "pickle5"]


def clone(x, how):
    return copy.deepcopy(x) if how == "deepcopy" else pickle.loads(pickle.dumps(x, int(how[-1])))


@st.composite
def copies_(draw):
    c = draw(one())
    c["cls"] = draw(st.sampled_from(["Kcorrect", "Kcorrect", "Fitter", "KcorrectSDSS"]))
    if c["cls"] == "KcorrectSDSS":
        o = c["o"]
        for x in o:
            x["f"], x["iv"] = (x["f"] * 5)[:5], (x["iv"] * 5)[:5]
        c["z"] = draw(gen.lg(.1, 1.))
    c["how"] = draw(st.sampled_from(HOW))
    c["used"] = draw(st.booleans())
    c["dz"] = draw(gen.lg(.01, 2.))
    return c


def few(k, o, far):
    z, f, iv, c = (np.float32(gen.col(o, x)) for x in ("z", "f", "iv", "c"))
    return dict(fit=k.fit_coeffs(redshift=z, maggies=f, ivar=np.maximum(iv, 0)), rec=k.reconstruct(redshift=z, coeffs=c),
                far=k.fit_coeffs(redshift=np.float32(far), maggies=f[0], ivar=np.maximum(iv[0], 0)))


def plain(T):
    return {a: np.array(getattr(T, a), float) for a in ("wave", "flux", "restframe_wave", "restframe_flux", "redshift", "nsed", "nwave")}


@sub("C31", "copies", copies_, 320, 10000, rule="every case (a copied or pickled object used next to the original)")
def copies(case, ctx):
    d, o, how = case["d"], case["o"], case["how"]
    B = gen.build(d, ctx)
    cls = case["cls"]
    ctx.label(cls, how, "used before" if case["used"] else "fresh")
    ctx.nt()
    if cls == "KcorrectSDSS":
        import kcorrect.kcorrect as kk
        import kcorrect.template as kt
        T = kt.Template(filename=gen.tmpl_file(d["t"]), interpolate=bool(d.get("it", 1)))
        k = ctx.call(cls, kk.KcorrectSDSS, templates=T, redshift_range=[0., case["z"]], nredshift=3)
        for x in o:
            x["z"] = min(x["z"], gen.f32(case["z"]) * .9)
            x["z"] = max(x["z"], 0.)
        far = case["z"] * 2

        def run(k):
            return few(k, o, far)
    elif cls == "Fitter":
        k = ctx.call("Fitter", gen.make, {x: v for x, v in d.items() if x not in ("out", "map", "cosmo")}, "Fitter")
        far = d["z"][1] * 1.5 + .2

        def run(k):
            return few(k, o, far)
    else:
        k = ctx.call("Kcorrect", gen.make, d, **(dict(abcorrect=True) if case["ab"] else {}))
        far = d["z"][1] * 1.5 + .2

        def run(k):
            return results(k, o, case["b"], far)
    if case["used"]:
        first = ctx.call("methods", run, k)
    c = ctx.call(how, clone, k, how)
    want = ctx.call("methods", run, k)
    what = "%s made by %s" % (cls, how)
    got = ctx.call("methods of the " + what, run, c)
    for nm in want:
        if nm == "raises":
            ctx.expect(got[nm] == want[nm], "%s: %s %s, original %s" % (what, nm, got[nm], want[nm]))
        else:
            same_results(ctx, "%s: %s" % (what, nm), got[nm], want[nm])
            if case["used"]:
                same_results(ctx, "original after being copied: " + nm, want[nm], first[nm])
    if cls == "Kcorrect":
        compare_attrs(ctx, what, attrs(c), attrs(k))
    # what happens to the copy leaves the original alone
    t0 = plain(k.templates)
    ctx.call("set_redshift", c.templates.set_redshift, case["dz"])
    for nm, v in plain(k.templates).items():
        ctx.expect(np.array_equal(v, t0[nm]), "templates.%s of the original changed with those of the copy" % nm)
    again = ctx.call("methods", run, k)
    for nm in want:
        if nm != "raises":
            same_results(ctx, "original after its copy was changed: " + nm, again[nm], want[nm])


def layout(ctx, s):
    """The extensions of the file that s is written to."""
    import astropy.io.fits as fits
    p = os.path.join(gen.scratch("c31"), "lay%d.fits" % os.getpid())
    ctx.call("tofits", s.tofits, p)
    with fits.open(p) as hd:
        out = [(x.name, x.shape if x.is_image else (x.columns.names, len(x.data))) for x in hd[1:]]
    os.unlink(p)
    return out


@st.composite
def parts_(draw):
    return dict(r=draw(gen.resp_any()), s=draw(st.one_of(gen.pts_sed(nmax=20), gen.smooth_sed(n=(10, 80)))), how=draw(st.sampled_from(HOW)),
                it=draw(st.booleans()), bin=draw(st.booleans()), z=draw(gen.lin(-.5, 4.)), dz=draw(gen.lin(-.5, 4.)), t=draw(gen.templates()))


@sub("C31", "parts", parts_, 400, 12000, rule="every case (a bandpass, a spectrum and a template set)")
def parts(case, ctx):
    import kcorrect.response as kr
    import kcorrect.template as kt
    how = case["how"]
    ctx.nt()
    ctx.label(how)
    n = gen.resp_name(case["r"])
    f = kr.ResponseDict()
    f.load_response(n)
    R = f[n]
    w, fl = gen.sed_arrays(case["s"])
    w, fl = w.astype(np.float32), fl.astype(np.float32)
    if (np.diff(w) <= 0).any():
        return
    S = ctx.call("SED", kt.SED, wave=w, flux=fl, interpolate=case["it"])
    T = ctx.call("Template", kt.Template, filename=gen.tmpl_file(case["t"]), interpolate=case["it"])
    for X in (S, T):
        X.set_redshift(case["z"])
        if case["bin"]:
            X.binimage = True
    R2 = ctx.call("%s of a bandpass" % how, clone, R, how)
    for a in ("wave", "response", "nwave"):
        ctx.expect(np.array_equal(getattr(R, a), getattr(R2, a)), "bandpass by %s: %s differs" % (how, a))
    for a in ("lambda_eff", "fwhm", "fwhm_low", "fwhm_high", "solar_magnitude", "vega2ab"):
        x, y = getattr(R, a), getattr(R2, a)
        ctx.expect(x == y, "bandpass by %s: %s %r, original %r" % (how, a, y, x))
    for X, nm in ((S, "spectrum"), (T, "template set")):
        what = "%s by %s" % (nm, how)
        Y = ctx.call(what, clone, X, how)
        a, b = plain(X), plain(Y)
        for q in a:
            ctx.expect(np.array_equal(a[q], b[q]), "%s: %s differs" % (what, q))
        ctx.expect((X.interp is None) == (Y.interp is None), "%s: interp is %r" % (what, Y.interp))
        if nm == "template set":
            for q in gen.PROPS:
                ctx.expect(np.array_equal(getattr(X, q), getattr(Y, q)), "%s: %s differs" % (what, q))
        lay = [layout(ctx, v) for v in (X, Y, copy.copy(X))]
        ctx.expect(lay[0] == lay[1], lambda: "%s is written as %s, the original as %s" % (what, lay[1], lay[0]))
        ctx.expect(lay[0] == lay[2], lambda: "a shallow copy of the %s is written as %s, the original as %s" % (nm, lay[2], lay[0]))
        kw, kw2 = (dict(sed=X), dict(sed=Y)) if case["it"] else (dict(wave=X.wave, flux=X.flux), dict(wave=Y.wave, flux=Y.flux))
        want = ctx.call("project", R.project, **kw)
        same_results(ctx, what + ": projection", ctx.call("project", R2.project, **kw2), want)
        ctx.call("set_redshift of the " + what, Y.set_redshift, case["dz"])
        for q, v in plain(X).items():
            ctx.expect(np.array_equal(a[q], v), "%s of the original %s changed with that of the copy" % (q, nm))
        same_results(ctx, nm + ": projection after its copy was changed", ctx.call("project", R.project, **kw), want)
        # the copy works on its own
        x = np.asarray(Y.restframe_wave, float) * (1 + case["dz"])
        ctx.close(what + ": redshifted", np.asarray(Y.wave, float), x, rtol=3e-7)
        if Y.interp is not None:
            amp = np.abs(np.asarray(Y.flux, float)).max()
            ctx.close(what + ": interp redshifted", np.asarray(Y.interp(np.asarray(Y.wave)), float).reshape(Y.flux.shape),
                      np.asarray(Y.flux, float), rtol=1e-5, atol=1e-5 * amp)


@st.composite
def threads_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 9)))
    return dict(d=d, jobs=[dict(o=draw(gen.objects(d, n=(1, 4), allzero=1)), b=draw(gen.band_shift(d)))
                           for _ in range(draw(st.integers(2, 4)))], reps=draw(st.integers(1, 3)),
                dt=draw(st.sampled_from([1e-6, 1e-5, 1e-4])), two=draw(st.booleans()), order=draw(st.randoms(use_true_random=False)).random())


@sub("C31", "threads", threads_, 160, 6000, rule="at least two threads with different objects")
def threads(case, ctx):
    """Calls from several threads give what the same calls give one after the other."""
    import kcorrect.response as kr
    d = case["d"]
    B = gen.build(d, ctx)
    k = ctx.call("construction", gen.make, d)
    ks = [k, ctx.call("construction", gen.make, d, templates=k.templates)] if case["two"] else [k]
    far = d["z"][1] * 1.5 + .2
    jobs = case["jobs"]
    ctx.nt(len(set(str(j["o"]) for j in jobs)) > 1)
    ctx.label("%d threads" % len(jobs), "two fitters" if case["two"] else "one fitter")
    R = [kr.ResponseDict()[n] for n in k.responses]
    w0 = np.array(k.templates.restframe_wave)

    def work(i):
        j, q = jobs[i], ks[i % len(ks)]
        out = results(q, j["o"], j["b"], far)
        fl = np.float32(np.abs(np.sin(np.arange(len(w0)) * (i + 1.)))) * 1e-9
        for m, r in enumerate(R):
            out["projection %d" % m] = r.project(wave=w0 * (1 + .1 * i), flux=fl)
        return out
    got, errs = [[] for _ in jobs], []
    gate = threading.Barrier(len(jobs))

    def go(i):
        try:
            gate.wait(60)
            for _ in range(case["reps"]):
                got[i].append(work(i))
        except Exception as e:
            errs.append("%s: %s" % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(case["dt"])
    try:
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    want = [ctx.call("methods", work, i) for i in range(len(jobs))]
    ctx.expect(not errs, lambda: "in one of %d threads: %s" % (len(jobs), errs[0]))
    for i, w in enumerate(want):
        for g in got[i]:
            for nm in w:
                if nm == "raises":
                    ctx.expect(g[nm] == w[nm], "thread %d: %s %s, alone %s" % (i, nm, g[nm], w[nm]))
                else:
                    same_results(ctx, "thread %d of %d: %s" % (i, len(jobs), nm), g[nm], w[nm])


CHILD = """
import sys, pickle
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from kcv import boot
boot.boot()
from kcv.props import c31
c31.child(sys.argv[2])
"""


def child(p):
    out = []
    for job in pickle.load(open(p, "rb")):
        try:
            k = pickle.loads(job["k"])
            out.append((results(k, job["o"], job["b"], job["far"]), attrs(k)))
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, e))
    pickle.dump(out, open(p + ".out", "wb"))


@sub("C31", "process", lambda: st.lists(one(), min_size=2, max_size=8), 12, 300,
     rule="at least two objects pickled here and used in a fresh interpreter")
def process(case, ctx):
    jobs, keep = [], []
    for c in case:
        d = c["d"]
        B = gen.build(d, ctx)
        k = ctx.call("construction", gen.make, d, **(dict(abcorrect=True) if c["ab"] else {}))
        far = d["z"][1] * 1.5 + .2
        keep.append((ctx.call("methods", results, k, c["o"], c["b"], far), attrs(k)))
        jobs.append(dict(k=ctx.call("pickle", pickle.dumps, k), o=c["o"], b=c["b"], far=far))
    q = os.path.join(gen.scratch("c31"), "%d" % os.getpid())
    with open(q, "wb") as fp:
        pickle.dump(jobs, fp)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-c", CHILD, root, q], capture_output=True, text=True, timeout=300)
    if not os.path.exists(q + ".out"):
        raise RuntimeError("child: " + r.stderr[-1000:])
    out = pickle.load(open(q + ".out", "rb"))
    os.unlink(q + ".out")
    os.unlink(q)
    ctx.nt(len(jobs) > 1)
    for (want, wa), got in zip(keep, out):
        ctx.expect(not isinstance(got, str), lambda: "unpickled in a fresh process: " + got)
        compare_attrs(ctx, "object unpickled in a fresh process", got[1], wa)
        for nm, w in want.items():
            if nm == "raises":
                ctx.expect(got[0][nm] == w, "unpickled in a fresh process: %s %s, original %s" % (nm, got[0][nm], w))
            else:
                same_results(ctx, "unpickled in a fresh process: " + nm, got[0][nm], w)
