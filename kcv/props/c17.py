"""C17: distances come from the cosmology unless given, consistently everywhere."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

COSMOS = ["Planck18", "Planck18", "Planck13", "WMAP5", "flat", "lcdm", "w0wa"]


class Duck:
    """A cosmology of the user: an object with a distmod() method."""

    def __init__(self, c):
        self._c = c

    def distmod(self, z):
        return self._c.distmod(z)


def cosmology(c):
    import astropy.cosmology as ac
    k = c["k"]
    if k == "flat":
        return ac.FlatLambdaCDM(H0=c["H0"], Om0=c["Om"], Tcmb0=2.725)
    if k == "lcdm":
        return ac.LambdaCDM(H0=c["H0"], Om0=c["Om"], Ode0=c["Ode"], Tcmb0=2.725)
    if k == "w0wa":
        return ac.Flatw0waCDM(H0=c["H0"], Om0=c["Om"], w0=-1.1 + c["Ode"] / 4, wa=.2, Tcmb0=2.725)
    return getattr(ac, k)


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 6)))
    d.pop("cosmo", None)
    c = dict(k=draw(st.sampled_from(COSMOS)))
    if c["k"] in ("flat", "lcdm", "w0wa"):
        c.update(H0=draw(gen.lin(40, 110, 70)), Om=draw(gen.lin(.1, .6, 50)), Ode=draw(gen.lin(0, .9, 9)))
    if draw(st.integers(0, 5)) == 0:
        c["duck"] = 1
    how = draw(st.sampled_from(["constructor", "constructor", "attribute", "file"]))
    if c["k"] == "Planck18" and draw(st.booleans()):
        how = "default"
        c.pop("duck", 0)
    o = draw(gen.objects(d, n=(1, 4), allzero=1))
    return dict(d=d, c=c, how=how, o=o, b=draw(gen.band_shift(d)), arr=draw(st.booleans()), w=draw(st.sampled_from(["f4", "f8", "list"])),
                z0=draw(st.booleans()), warm=draw(st.sampled_from([True, True, False])))


@sub("C17", "distance", case_, 480, 16000, rule="an object with a defined magnitude and nonzero coefficients")
def distance(case, ctx):
    d, how = case["d"], case["how"]
    cosmo = cosmology(case["c"])
    use = Duck(cosmo) if case["c"].get("duck") else cosmo
    B = gen.build(d, ctx)
    if how == "constructor":
        k = ctx.call("construction", gen.make, d, cosmo=use)
    elif how == "file":
        # a saved object (made with the default cosmology) read back with a cosmology
        import kcorrect.kcorrect as kk
        p = os.path.join(gen.scratch("c17"), "%d.fits" % os.getpid())
        ctx.call("tofits", gen.make(d).tofits, p)
        k = ctx.call("construction from a file", kk.Kcorrect, filename=p, cosmo=use)
        os.unlink(p)
    elif how == "attribute":
        # the object's cosmology is replaced after it was used with another one
        k = ctx.call("construction", gen.make, d)
    else:
        k = B.k
    ctx.label(how, case["c"]["k"], "only distmod()" if use is not cosmo else "astropy cosmology")
    m = B.m
    m = ref.Model(m.curves, m.out, m.imap, m.tw, m.tf, d["z"][0], d["z"][1], d["nz"], m.props, cosmo, m.solar)
    os_ = [case["o"][i] for i in gen.crowd(case["o"])] if case["arr"] else case["o"][:1]
    w, b = case["w"], case["b"]
    x = (lambda key: gen.wrap(col(os_, key), w)) if case["arr"] else (lambda key: gen.wrap(os_[0][key], w))
    z = gen.wrap(col(os_, "z"), w) if case["arr"] else gen.zwrap(os_[0]["z"], w)
    zs = np.array(col(os_, "z"))
    dl = cosmo.luminosity_distance(zs).to_value("Mpc")
    dl32 = np.float32(dl)

    def dist(v):
        return gen.wrap(v, w) if case["arr"] else gen.zwrap(float(np.float32(v[0])), w)

    def run(zz, **kw):
        r = k.absmag(redshift=zz, maggies=x("f"), ivar=x("iv"), coeffs=x("c"), band_shift=b, reconstruct=True,
                     limit=True, kcorrect=True, **kw)
        q = k.derived(redshift=zz, coeffs=x("c"), band_shift=b, **kw)
        out = dict(zip(("absmag", "reconstruct", "limit", "k"), [np.atleast_2d(np.asarray(v, float)) for v in r]))
        for key, v in q.items():
            v = np.asarray(v, float)
            out[key] = v if case["arr"] else v[None]
        return out
    if how == "attribute":
        if case["warm"]:
            ctx.call("absmag and derived with the earlier cosmology", run, z)
        else:
            k.derived(redshift=np.float32(.01), coeffs=np.ones(B.nsed, np.float32))
        k.cosmo = use
    base = ctx.call("absmag and derived", run, z)
    given = ctx.call("absmag and derived(distance)", run, z, distance=dist(dl32))
    td = np.array([m.dm_tol(v) for v in zs]) + 3e-5
    ctx.nt(bool((base["absmag"] != -9999.).any() and any(np.any(o["c"]) for o in os_)))
    # absolute values from the cosmology
    for i, o in enumerate(os_):
        wt = m.absmag(o["z"], o["f"], o["iv"], o["c"], b)
        for nm in ("absmag", "reconstruct", "limit"):
            v, t = wt[nm]
            ok = (v != -9999.) & np.isfinite(v) & (t < .02) & (base[nm][i] != -9999.)
            ctx.within("%s with %s" % (nm, case["c"]["k"]), np.where(ok, base[nm][i], 0), np.where(ok, v, 0), np.where(ok, t, 1))
        q = m.derived(o["z"], o["c"], b)
        for nm in ("mremain", "intsfh"):
            ctx.close("derived[%s] with %s" % (nm, case["c"]["k"]), base[nm][i], q[nm], rtol=q["dtol"] + 1e-5)
        ok = np.isfinite(q["mtol_tol"])
        ctx.within("derived[mtol] with %s" % case["c"]["k"], np.where(ok, base["mtol"][i], 0), np.where(ok, q["mtol"], 0),
                   np.where(ok, q["mtol_tol"] + 3 * q["dtol"] * q["mtol"], 1))

    # giving the cosmology's own distance
    def cmp(what, got, want, dmag, fac):
        for nm in ("absmag", "reconstruct", "limit"):
            u = want[nm] == -9999.
            ctx.expect(np.array_equal(u, got[nm] == -9999.), "%s: undefined %s values differ" % (what, nm))
            ok = ~u & np.isfinite(want[nm]) & np.isfinite(got[nm])
            sh = np.broadcast_to(np.reshape(dmag, (-1, 1)), u.shape)
            ctx.within("%s: %s" % (what, nm), np.where(ok, got[nm], 0), np.where(ok, want[nm] + sh, 0),
                       np.broadcast_to(td[:, None], u.shape))
        fin = np.isfinite(want["k"])
        ctx.within(what + ": K-correction", np.where(fin, got["k"], 0), np.where(fin, want["k"], 0), 2e-6)
        for nm in ("mremain", "intsfh"):
            ctx.within("%s: %s" % (what, nm), got[nm], want[nm] * fac, want[nm] * fac * td + 1e-35)
        for nm in ("metallicity", "b50", "b300", "b1000"):
            ctx.close("%s: %s" % (what, nm), got[nm], want[nm], rtol=3e-5)
        ctx.within(what + ": mtol", got["mtol"], want["mtol"], np.abs(want["mtol"]) * 3 * td[:, None])
    cmp("with the cosmology's luminosity distance given", given, base, 0., 1.)
    D = np.float32(col(os_, "D"))
    other = ctx.call("absmag and derived(distance)", run, z, distance=dist(D))
    rat = D.astype(float) / dl32.astype(float)
    cmp("at %s times the distance" % rat.tolist(), other, given, -5 * np.log10(rat), rat**2)
    for i, o in enumerate(os_):
        q = m.derived(o["z"], o["c"], b, o["D"])
        for nm in ("mremain", "intsfh"):
            ctx.close("derived[%s](distance)" % nm, other[nm][i], q[nm], rtol=5e-5)
        v, t = m.absmag(o["z"], o["f"], o["iv"], o["c"], b, o["D"])["absmag"]
        ok = (v != -9999.) & np.isfinite(v) & (t < .02)
        ctx.within("absmag(distance)", np.where(ok, other["absmag"][i], 0), np.where(ok, v, 0), np.where(ok, t, 1))
    # redshift 0 with a distance
    if case["z0"]:
        zz = np.zeros(len(os_), np.float32) if case["arr"] else np.float32(0.)
        r0 = ctx.call("absmag and derived(redshift=0, distance)", run, zz, distance=dist(D))
        for i, o in enumerate(os_):
            wt = m.absmag(0., o["f"], o["iv"], o["c"], b, o["D"])
            for nm in ("absmag", "reconstruct", "limit"):
                v, t = wt[nm]
                ok = (v != -9999.) & np.isfinite(v) & (t < .02) & (r0[nm][i] != -9999.)
                ctx.within("%s(redshift=0, distance)" % nm, np.where(ok, r0[nm][i], 0), np.where(ok, v, 0), np.where(ok, t, 1))
            ctx.close("derived[mremain](redshift=0, distance)", r0["mremain"][i], other["mremain"][i], rtol=5e-5)
        ctx.label("redshift 0")


@st.composite
def many_(draw):
    d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 6), big=False))
    return dict(d=d, n=draw(st.sampled_from([11, 64, 101, 200, 500, 1001, 1500])), seed=draw(st.integers(0, 10**6)),
                how=draw(st.sampled_from(["lin", "log", "sort", "few", "desc"])), b=draw(gen.band_shift(d)),
                c=draw(gen.coeffs(d)), f=draw(gen.fluxes(len(d["b"]))), order=draw(st.booleans()))


@sub("C17", "many", many_, 160, 5000, rule="at least 100 objects")
def many(case, ctx):
    """The same for arrays of the length of a catalogue, object by object."""
    d, n = case["d"], case["n"]
    B = gen.build(d, ctx)
    k = B.k
    cosmo = gen.cosmo_of(d)
    r = np.random.RandomState(case["seed"])
    z0, z1 = max(gen.f32(d["z"][0]), 1e-3), gen.f32(d["z"][1])
    z = {"log": z0 * (z1 / z0)**r.rand(n), "few": z0 + (z1 - z0) * r.randint(1, 6, n) / 5.}.get(
        case["how"], z0 + (z1 - z0) * r.rand(n))
    z = np.clip(np.float32(z), np.float32(z0), np.float32(z1))
    if case["how"] in ("sort", "desc"):
        z = np.sort(z)[::-1 if case["how"] == "desc" else 1]
    f, iv = case["f"]
    if not any(v > 0 and w > 0 for v, w in zip(f, iv)):
        f, iv = [abs(v) + 1e-9 for v in f], [abs(w) + 1e18 for w in iv]
    s = 10.**r.uniform(-1, 1, n)
    m, w = np.float32(np.outer(s, f)), np.float32(np.outer(s**-2, iv))
    c = np.float32(np.outer(s, case["c"]))
    dl = np.float32(cosmo.luminosity_distance(np.float64(z)).to_value("Mpc"))
    kw = dict(redshift=z, coeffs=c, band_shift=case["b"])
    ctx.nt(n >= 100)
    ctx.label("%d objects" % n, case["how"])

    def run(sel, **dist):
        a = {x: v[sel] if np.ndim(v) else v for x, v in kw.items()}
        e = {x: v[sel] for x, v in dist.items()}
        q = k.absmag(maggies=m[sel], ivar=w[sel], reconstruct=True, limit=True, **a, **e), k.derived(**a, **e)
        return [np.asarray(v, float) for v in q[0]] + [np.asarray(q[1][x], float) for x in ("mremain", "intsfh")]
    every = np.arange(n)
    got = ctx.call("absmag and derived", run, every)
    want = ctx.call("absmag and derived(distance)", run, every, distance=dl)
    tol = np.array([B.m.dm_tol(v) for v in z.astype(float)]) + 3e-5
    some = np.unique(np.append(r.randint(0, n, 12), [0, n - 1]))
    if case["order"]:
        some = some[::-1]
    alone = ctx.call("absmag and derived of some", run, some)
    for i, nm in enumerate(("absmag", "reconstruct", "limit", "mremain", "intsfh")):
        ctx.expect(len(got[i]) == n, "%s: %d values for %d objects" % (nm, len(got[i]), n))
        for what, x, y, t in (("cosmology's distance given", got[i], want[i], tol), ("some of the objects", got[i][some], alone[i], tol[some])):
            if i < 3:
                ctx.expect(np.array_equal(x == -9999., y == -9999.), "%s, %s: undefined elsewhere" % (nm, what))
                ctx.within("%s, %s" % (nm, what), np.where(np.isfinite(y), x, 0), np.where(np.isfinite(y), y, 0),
                           np.broadcast_to(t[:, None], y.shape))
            else:
                ctx.within("%s, %s" % (nm, what), x, y, np.abs(y) * t + 1e-35)
