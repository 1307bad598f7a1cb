"""C21: a saved K-correction object computes the same after reloading."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from kcv import boot, gen, ref
from kcv.core import sub
from kcv.gen import col
from kcv.props.c10 import fits_same, pos


def results(k, o, b, far):
    """Everything the object computes for the objects o, as a dict of arrays."""
    z, f, iv, c, D = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D"))
    out = dict(fit=k.fit_coeffs(redshift=z, maggies=f, ivar=pos(iv)),
               far=k.fit_coeffs(redshift=np.float32(far), maggies=f[0], ivar=pos(iv)[0]),
               rec=k.reconstruct(redshift=z, coeffs=c),
               out=k.reconstruct_out(redshift=0 * z, coeffs=c, band_shift=b),
               k1=k.kcorrect(redshift=z[0], coeffs=c[0], band_shift=b))
    r = k.absmag(redshift=z, maggies=f, ivar=iv, coeffs=c, band_shift=b, distance=D, reconstruct=True, limit=True, kcorrect=True)
    out.update(zip(("absmag", "reconstruct", "limit", "k"), r))
    out["cosmo absmag"] = k.absmag(redshift=z, maggies=f, ivar=iv, coeffs=c)
    for nm, v in k.derived(redshift=z, coeffs=c, band_shift=b).items():
        out["derived " + nm] = v
    try:
        k.reconstruct(redshift=np.float32(far), coeffs=c[0])
        out["raises"] = "no exception"
    except Exception as e:
        out["raises"] = type(e).__name__
    return out


def attrs(k):
    T = k.templates
    out = dict(responses=[str(x) for x in k.responses], responses_out=[str(x) for x in k.responses_out],
               responses_map=[str(x) for x in k.responses_map], nredshift=int(k.nredshift),
               redshift_range=[float(x) for x in k.redshift_range], abcorrect=bool(k.abcorrect),
               redshifts=np.array(k.redshifts, float), nsed=int(T.nsed), wave=np.array(T.restframe_wave, float),
               flux=np.array(T.restframe_flux, float), tz=float(T.redshift), imap=[int(x) for x in k.imap])
    for p in gen.PROPS:
        out[p] = np.array(getattr(T, p), float)
    return out


def compare_attrs(ctx, what, got, want):
    for nm, v in want.items():
        if isinstance(v, np.ndarray):
            ctx.close("%s: %s" % (what, nm), got[nm], v, rtol=2e-7, atol=1e-45)
        else:
            ctx.expect(got[nm] == v, lambda: "%s: %s is %r, was %r" % (what, nm, got[nm], v))


def compare(ctx, what, B, o, b, got, want, cosmo=True):
    ctx.expect(got["raises"] == want["raises"] == "ValueError", lambda: "%s: reconstruct out of range: %s, %s before"
               % (what, got["raises"], want["raises"]))
    m = B.m
    for nm, w in want.items():
        if nm == "raises" or (nm in ("cosmo absmag",) and not cosmo) or (nm.startswith("derived") and not cosmo):
            continue
        g, w = np.asarray(got[nm], float), np.asarray(w, float)
        ctx.expect(g.shape == w.shape, lambda: "%s: %s has shape %s, was %s" % (what, nm, g.shape, w.shape))
        if nm == "fit":
            for i, x in enumerate(o):
                fits_same(ctx, "%s: fit" % what, B, x["z"], pos(x["iv"]), g[i], w[i])
            continue
        tol = 1e-5 * np.abs(w) + 1e-37
        if nm == "k1":
            t = m.kcorrect(o[0]["z"], o[0]["c"], b)[1]
            tol = np.where(t < .02, t, np.inf)
        elif g.ndim and g.shape[0] == len(o) and nm != "far":
            for i, x in enumerate(o):
                if nm == "rec":
                    tol[i] = m.reconstruct("in", x["z"], x["c"])[1] + 1e-37
                elif nm == "out":
                    tol[i] = m.reconstruct("out", 0., x["c"], b)[1] + 1e-37
                elif nm in ("absmag", "reconstruct", "limit", "k", "cosmo absmag"):
                    key = nm.replace("cosmo ", "")
                    t = m.absmag(x["z"], x["f"], x["iv"], x["c"], 0. if "cosmo" in nm else b, x["D"])[key][1]
                    tol[i] = np.where(t < .02, t + 1e-5, np.inf)
                elif nm == "derived mtol":
                    tol[i] = np.maximum(tol[i], m.derived(x["z"], x["c"], b, x["D"])["mtol_tol"])
        ok = np.isfinite(tol) & np.isfinite(w)
        ctx.within("%s: %s" % (what, nm), np.where(ok, g, 0), np.where(ok, w, 0), np.where(ok, tol, 1))


@st.composite
def one(draw, **kw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 9), **kw))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 3), allzero=1)), b=draw(gen.band_shift(d)),
                ab=draw(st.sampled_from([False, False, True])))


# names under which users may register bandpasses of their own
ALIAS = ["GBAND", "Gband", "gband", "a b", "u.prime", "1", "SDSS_G0", "x" * 40, "a/b", "i-z", "r'", "None", "mu_\"q", "nan"]


@st.composite
def case_(draw):
    c = draw(one())
    c["ops"] = draw(st.lists(st.sampled_from(["self", "other", "redshift", "use"]), min_size=0, max_size=3))
    c["pre"] = draw(st.sampled_from(["none", "text", "fits"]))
    c["long"] = draw(st.integers(0, 9)) == 0
    c["alias"] = draw(st.permutations(ALIAS)) if draw(st.integers(0, 3)) == 0 else []
    return c


def path(n):
    return os.path.join(gen.scratch("c21"), "%s%d.fits" % (n, os.getpid()))


def hdus(p):
    import astropy.io.fits as fits
    out = {}
    with fits.open(p, memmap=False) as hd:
        for i, x in enumerate(hd):
            if x.data is not None:
                a = np.array(x.data)
                out["%d %s" % (i, x.name)] = a.tolist() if a.dtype.names else a.astype(float)
    return out


@sub("C21", "reload", case_, 320, 12000,
     rule="an object with its own output bands, map or band shift, or a chain of saves")
def reload_(case, ctx):
    import kcorrect.kcorrect as kk
    d = case["d"]
    B = gen.build(d, ctx)
    kw = dict(abcorrect=True) if case["ab"] else {}
    if case["long"] and d["t"]["k"] != "file":
        # bands given by long absolute paths
        import copy
        d = copy.deepcopy(d)
        ctx.label("long names")
        k = ctx.call("construction", make_long, d, **kw)
    elif case["alias"]:
        ctx.label("registered names")
        k = ctx.call("construction", make_alias, d, case["alias"], **kw)
    else:
        k = ctx.call("construction", gen.make, d, **kw)
    ctx.nt("out" in d or "map" in d or case["b"] != 0 or len(case["ops"]) > 0)
    far = d["z"][1] * 1.5 + .2
    o, b = case["o"], case["b"]
    want, wa = ctx.call("methods", results, k, o, b, far), attrs(k)
    p = path("a")
    if case["pre"] == "text":
        with open(p, "w") as fp:
            fp.write("an old file")
    elif case["pre"] == "fits":
        import astropy.io.fits as fits
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.arange(3.), name="A"), fits.ImageHDU(np.arange(4.), name="RESPONSES")]
                     ).writeto(p, overwrite=True)
    elif os.path.exists(p):
        os.unlink(p)
    ctx.label("over " + case["pre"], d["t"]["k"], "AB flag" if case["ab"] else "no AB flag")
    ctx.call("tofits", k.tofits, p)
    compare_attrs(ctx, "the object after saving", attrs(k), wa)
    cosmo = gen.cosmo_of(d)
    h0 = hdus(p)

    def load(p):
        return ctx.call("Kcorrect(filename)", kk.Kcorrect, filename=p, **(dict(cosmo=cosmo) if d.get("cosmo") else {}))
    r = load(p)
    what = "reloaded object"
    compare_attrs(ctx, what, attrs(r), wa)
    compare(ctx, what, B, o, b, ctx.call("methods of the " + what, results, r, o, b, far), want)
    for op in case["ops"]:
        ctx.label(op)
        if op == "self":
            ctx.call("tofits over its own file", r.tofits, p)
        elif op == "other":
            p = path("b") if p == path("a") else path("a")
            ctx.call("tofits", r.tofits, p)
        elif op == "redshift":
            r.templates.set_redshift(.7)
            ctx.call("tofits", r.tofits, p)
            r.templates.set_redshift(0.)
        else:
            ctx.call("methods", results, r, o, b, far)
            continue
        h = hdus(p)
        ctx.expect(list(h) == list(h0), lambda: "saving the reloaded object: HDUs %s, were %s" % (list(h), list(h0)))
        for nm, v in h0.items():
            if isinstance(v, np.ndarray):
                ctx.close("HDU %s after saving the reloaded object" % nm, h[nm], v, rtol=1e-6, scale=np.abs(v).max() if nm.endswith((" A", " AOUT")) else None)
            elif "FLUX" not in nm:
                ctx.expect(str(h[nm]) == str(v), lambda: "HDU %s after saving the reloaded object: %s, was %s" % (nm, h[nm], v))
        r = load(p)
        what = "object reloaded again"
        compare_attrs(ctx, what, attrs(r), wa)
        compare(ctx, what, B, o, b, ctx.call("methods of the " + what, results, r, o, b, far), want)
    if not d.get("cosmo"):
        import astropy.cosmology as ac
        ctx.expect(r.cosmo == ac.Planck18, "the reloaded object's default cosmology is %r" % r.cosmo)


def make_long(d, **kw):
    import shutil
    base = os.path.join(gen.scratch("c21"), "long" * 30)
    os.makedirs(base, exist_ok=True)
    names, orig = {}, gen.resp_name

    def name(s):
        n = orig(s)
        src = n + ".dat" if os.path.isabs(n) else ref.data_dir("responses", n + ".dat")
        new = os.path.join(base, gen.h(s) + "x" * 150)
        if not os.path.exists(new + ".dat"):
            shutil.copy(src, new + ".%d" % os.getpid())
            os.rename(new + ".%d" % os.getpid(), new + ".dat")
        return new
    gen.resp_name = name
    try:
        return gen.make(d, **kw)
    finally:
        gen.resp_name = orig


def make_alias(d, alias, **kw):
    """As gen.make(), with the bandpasses registered under other names."""
    import kcorrect.response as kr
    f, orig, names = kr.ResponseDict(), gen.resp_name, {}

    def name(s):
        n = orig(s)
        if n not in names:
            names[n] = alias[len(names) % len(alias)]
            f.load_response(n)
            f[names[n]] = f[n]
        return names[n]
    gen.resp_name = name
    try:
        return gen.make(d, **kw)
    finally:
        gen.resp_name = orig


CHILD = """
import sys, pickle
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from kcv import boot
boot.boot()
from kcv.props import c21
c21.child(sys.argv[2])
"""


def child(p):
    import kcorrect.kcorrect as kk
    out = []
    for job in pickle.load(open(p, "rb")):
        try:
            k = kk.Kcorrect(filename=job["path"])
            out.append((results(k, job["o"], job["b"], job["far"]), attrs(k)))
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, e))
    pickle.dump(out, open(p + ".out", "wb"))


@sub("C21", "process", lambda: st.lists(one(), min_size=2, max_size=10), 16, 400,
     rule="at least two objects saved here and reloaded in a fresh interpreter")
def process(case, ctx):
    jobs, keep = [], []
    for i, c in enumerate(case):
        d = c["d"]
        d = {k: v for k, v in d.items() if k != "cosmo"}
        B = gen.build(d, ctx)
        k = ctx.call("construction", gen.make, d, **(dict(abcorrect=True) if c["ab"] else {}))
        far = d["z"][1] * 1.5 + .2
        p = path("p%d_" % i)
        ctx.call("tofits", k.tofits, p)
        keep.append((B, ctx.call("methods", results, k, c["o"], c["b"], far), attrs(k)))
        jobs.append(dict(path=p, o=c["o"], b=c["b"], far=far))
    q = path("jobs")
    with open(q, "wb") as fp:
        pickle.dump(jobs, fp)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-c", CHILD, root, q], capture_output=True, text=True, timeout=300)
    if not os.path.exists(q + ".out"):
        raise RuntimeError("child: " + r.stderr[-1000:])
    out = pickle.load(open(q + ".out", "rb"))
    os.unlink(q + ".out")
    ctx.nt(len(jobs) > 1)
    for c, (B, want, wa), got in zip(case, keep, out):
        ctx.expect(not isinstance(got, str), lambda: "reloading in a fresh process: " + got)
        compare_attrs(ctx, "object reloaded in a fresh process", got[1], wa)
        compare(ctx, "object reloaded in a fresh process", B, c["o"], c["b"], got[0], want)
    for j in jobs:
        os.unlink(j["path"])


@st.composite
def survey_(draw):
    cls = draw(st.sampled_from(["KcorrectSDSS", "KcorrectGST"]))
    nb = dict(KcorrectSDSS=5, KcorrectGST=10)[cls]
    bands = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    m = draw(st.integers(0, 4))
    o = []
    for _ in range(draw(st.integers(1, 3))):
        f = [gen.f32(1e-9 * draw(gen.lg(.1, 30., 40))) for _ in range(nb)]
        o.append(dict(z=draw(gen.lin(.01, .8)), f=f, iv=[gen.f32((20. / x)**2) for x in f],
                      c=[gen.f32(draw(gen.lg(1e-4, 1., 20))) for _ in range(5)], D=100.))
    return dict(cls=cls, ab=draw(st.booleans()), o=o, out=[draw(st.sampled_from(bands + ["bessell_V"])) for _ in range(m)],
                map=[draw(st.sampled_from(bands)) for _ in range(m)], z1=draw(st.sampled_from([.9, 1.2])))


@sub("C21", "survey", survey_, 40, 2000, rule="every case (survey-class objects reloaded with fromfits())")
def survey(case, ctx):
    """The survey classes are reloaded with fromfits() on another object of the class."""
    import kcorrect.kcorrect as kk
    cls = getattr(kk, case["cls"])
    kw = dict(responses_out=case["out"], responses_map=case["map"]) if case["out"] else {}
    k = ctx.call(case["cls"], cls, redshift_range=[0., case["z1"]], nredshift=4, abcorrect=case["ab"], **kw)
    key = case["cls"]
    if key not in _OTHER:
        _OTHER[key] = cls(redshift_range=[0., .3], nredshift=2)
    r = _OTHER[key]
    p = path("s")
    ctx.call("tofits", k.tofits, p)
    ctx.call("fromfits", r.fromfits, p)
    ctx.nt()
    ctx.label(case["cls"], "AB correction" if case["ab"] else "no AB correction")
    compare_attrs(ctx, "reloaded %s" % case["cls"], attrs(r), attrs(k))
    a, b = results(k, case["o"], .05, 3.), results(r, case["o"], .05, 3.)
    for nm, w in a.items():
        if nm == "raises":
            ctx.expect(b[nm] == w, "reconstruct out of range: %s, %s before" % (b[nm], w))
            continue
        w = np.asarray(w, float)
        ctx.close("reloaded %s: %s" % (case["cls"], nm), b[nm], w, rtol=2e-5, atol=2e-5 if "mag" in nm or nm in ("k", "k1", "limit", "reconstruct") else 0,
                  scale=np.abs(w).max() if nm == "fit" else None)


_OTHER = {}


@st.composite
def grid_(draw):
    d = draw(gen.config(nb=(1, 1), nsed=(1, 2), nz=(2, 3), real=False, big=False))
    for key in ("out", "map"):
        d.pop(key, None)
    d["nz"] = draw(st.sampled_from([33000, 1000, 65536, 4000, 32768, 10000, 32767]))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 3))), p=draw(st.lists(gen.lin(0, 1, 1000), min_size=1, max_size=20)))


@sub("C21", "grid", grid_, 16, 200, shards=8, rule="a grid of more than 32767 redshifts")
def grid(case, ctx):
    """Fine redshift grids are saved and restored whole."""
    import kcorrect.kcorrect as kk
    d = case["d"]
    ctx.nt(d["nz"] > 32767)
    ctx.label("%d redshifts" % d["nz"])
    k = ctx.call("construction", gen.make, d)
    q = path("g")
    ctx.call("tofits", k.tofits, q)
    try:
        k2 = ctx.call("Kcorrect(filename)", kk.Kcorrect, filename=q)
    finally:
        os.unlink(q)
    compare_attrs(ctx, "a fine grid read back", attrs(k2), attrs(k))
    ctx.expect(len(k.redshifts) == d["nz"], "%d redshifts in the grid, not %d" % (len(k.redshifts), d["nz"]))
    z0, z1 = np.float32(d["z"][0]), np.float32(d["z"][1])
    want = float(z0) + (float(z1) - float(z0)) * np.arange(d["nz"]) / (d["nz"] - 1.)
    ctx.within("the redshifts of the grid", np.asarray(k.redshifts, float), want, 3e-7 * (1 + abs(float(z0)) + abs(float(z1))))
    z = np.float32(float(z0) + (float(z1) - float(z0)) * np.array(case["p"])).clip(z0, z1)
    c = np.ones((len(z), int(k.templates.nsed)), np.float32)
    for meth in ("reconstruct", "reconstruct_out"):
        a = ctx.call(meth, getattr(k, meth), redshift=z, coeffs=c)
        b = ctx.call(meth + " after reading", getattr(k2, meth), redshift=z, coeffs=c)
        ctx.close(meth + " on a fine grid after reading", b, a, rtol=1e-6, atol=1e-37)
