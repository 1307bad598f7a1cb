"""C08: the fit is the nonnegative weighted least-squares optimum."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub


@st.composite
def obj(draw, d):
    """One object: fluxes from a noisy mixture of the templates, or arbitrary."""
    n = len(d["b"])
    z = draw(gen.redshift(d))
    mode = draw(st.sampled_from(["mix", "mix", "mix", "raw", "out"]))
    if mode == "out":
        z0, z1 = gen.f32(d["z"][0]), gen.f32(d["z"][1])
        z = gen.f32(draw(st.sampled_from([z1 + 1e-3, z1 * 1.5 + .1, z0 - 1e-3, z0 - .3])))
    o = dict(z=z, m=mode)
    if mode == "mix":
        o["c"] = draw(gen.coeffs(d))
        o["e"] = [draw(st.sampled_from([0., 0., .01, -.01, .1, -.1, 1., -.5, 3., -2.])) for _ in range(n)]
    else:
        s = draw(st.sampled_from([1e-9, 1e-7, 1e-11]))
        o["f"] = [gen.f32(s * draw(st.sampled_from([1, 1, 1, 1, -1, 0])) * draw(gen.lg(.03, 30., 60)))
                  for _ in range(n)]
    # weights: signal to noise per band, some bands without
    o["sn"] = [draw(st.one_of(gen.lg(0.3, 300., 60), gen.lg(0.3, 300., 60), st.just(0.))) for _ in range(n)]
    if draw(st.integers(0, 4)) == 0:
        o["sn"][0] *= 1e3
    return o


def arrays(B, o):
    """(maggies, ivar) single precision values of an object."""
    n = B.nb
    if o["m"] == "mix":
        f, _ = B.m.reconstruct("in", o["z"], o["c"])
        ref_f = np.abs(f) + 1e-30
        f = f * (1. + np.array(o["e"]))
    else:
        f = np.array(o["f"])
        ref_f = np.abs(f) + 0.1 * (np.abs(f).max() + 1e-12)
    iv = (np.array(o["sn"]) / ref_f)**2
    iv = np.minimum(iv, 1e30)
    return np.float32(f), np.float32(iv)


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 6), nsed=(1, 6), out=False, zpos=True, nz=(2, 8)))
    o = [draw(obj(d)) for _ in range(draw(st.integers(1, 8)))]
    gen.crowded(draw, d, o)
    return dict(d=d, o=o, w=draw(st.sampled_from(gen.CONTAINERS)))


def optimal(ctx, what, B, z, f, iv, c, tag=""):
    """c is a nonnegative optimum for the object (z, f, iv)."""
    ctx.expect(np.shape(c) == (B.nsed,), "%s: shape %s" % (what, np.shape(c)))
    c = np.asarray(c, np.float64)
    ctx.expect(np.isfinite(c).all() and (c >= 0).all(), lambda: "%s: coefficients %r" % (what, c.tolist()))
    if not (B.m.zmin <= z <= B.m.zmax):
        ctx.expect(not c.any(), lambda: "%s: outside of the redshift range but coefficients %r" % (what, c.tolist()))
        return None
    A, tA = B.m.A("in", z)
    w = np.sqrt(np.asarray(iv, np.float64))
    b = w * np.where(w == 0, 0., np.asarray(f, np.float64))
    best, x = ref.nnls_brute(A * w[:, None], b)
    got = float(np.linalg.norm(w * (A @ c) - b))
    slack = 1e-5 * np.linalg.norm(b) + 2 * float(np.linalg.norm(w * (tA @ np.maximum(c, x)))) + 1e-30
    ctx.expect(got <= best + slack, lambda: "%s: chi2 %.9g, but nonnegative coefficients %s reach %.9g (returned %s)"
               % (what, got**2, x.tolist(), best**2, c.tolist()))
    return w * (A @ c), np.linalg.norm(b), (x > 0).sum()


@sub("C08", "optimum", case_, 700, 20000,
     rule="an in-range object with some weight whose optimum is not all zero")
def optimum(case, ctx):
    d = case["d"]
    B = gen.build(d, ctx, "Fitter" if d["z"][0] > 0 else None)
    k = B.k
    fs, ivs, zs = [], [], []
    for o in case["o"]:
        f, iv = arrays(B, o)
        z = o["z"]
        what = "fit_coeffs(z=%r)" % z
        got = ctx.call(what, k.fit_coeffs, redshift=gen.zwrap(z, case["w"]), maggies=gen.wrap(f, case["w"]),
                       ivar=gen.wrap(iv, case["w"]))
        r = optimal(ctx, what, B, z, f, iv, got)
        fs.append(f), ivs.append(iv), zs.append(z)
        if r is None:
            ctx.label("out of range")
            continue
        pred, nb, ns = r
        ctx.nt(nb > 0 and ns > 0)
        ctx.label("all weights zero" if not iv.any() else "some weights zero" if not iv.all() else "all weights",
                  "negative flux" if (f < 0).any() else "no negative flux", "%d positive coefficients" % min(ns, 3))
        # bands without weight have no influence
        if not iv.all():
            for x in (np.float32(12345.) * (np.abs(f).max() + np.float32(1e-9)), np.nan, np.inf):
                f2 = f.copy()
                f2[iv == 0] = x
                again = ctx.call(what + " with a flux of %g in the bands without weight" % x, k.fit_coeffs,
                                 redshift=z, maggies=f2, ivar=iv)
                ctx.close(what + ": influence of a band without weight", again, np.asarray(got, float), rtol=1e-6)
        # scaling
        for s in (np.float32(4.), np.float32(2.**-7)):
            c2 = ctx.call(what, k.fit_coeffs, redshift=z, maggies=f * s, ivar=iv / s**2)
            r2 = optimal(ctx, what + " scaled by %g" % s, B, z, f * s, iv / s**2, c2)
            ctx.within(what + ": scaling of the weighted model", r2[0], pred, 5e-3 * nb + 1e-30)
    if len(zs) > 1 or case["w"] == "f4":
        zs, fs, ivs = ([x[i] for i in gen.crowd(case["o"])] for x in (zs, fs, ivs))
        got = ctx.call("fit_coeffs(array)", k.fit_coeffs, redshift=gen.wrap(zs, case["w"]),
                       maggies=gen.wrap(fs, case["w"]), ivar=gen.wrap(ivs, case["w"]))
        ctx.expect(np.shape(got) == (len(zs), B.nsed), "fit_coeffs(array): shape %s" % (np.shape(got),))
        done = set()
        for i, z in enumerate(zs):
            key = (z, fs[i].tobytes(), ivs[i].tobytes(), np.asarray(got)[i].tobytes())
            if key in done:
                continue
            done.add(key)
            optimal(ctx, "fit_coeffs(array)[%d]" % i, B, z, fs[i], ivs[i], np.asarray(got)[i])


class Exhausted:
    """scipy.optimize.nnls that runs out of its default number of iterations in the
    calls marked True (cyclically); a call with enough iterations given succeeds."""

    def __init__(self, pattern, never=False):
        self.pattern, self.never, self.calls, self.failed = pattern, never, 0, 0

    def __enter__(self):
        import scipy.optimize
        self.real = scipy.optimize.nnls

        def nnls(A, b, *a, **kw):
            self.calls += 1
            it = kw.get("maxiter", a[0] if a else None)
            few = it is None or it <= 10 * np.shape(A)[1]
            if self.never or (few and self.pattern[(self.calls - 1) % len(self.pattern)]):
                self.failed += 1
                raise RuntimeError("Maximum number of iterations reached.")
            return self.real(A, b, *a, **kw)
        scipy.optimize.nnls = nnls
        return self

    def __exit__(self, *exc):
        import scipy.optimize
        scipy.optimize.nnls = self.real


@st.composite
def retry_(draw):
    d = draw(gen.config(nb=(1, 6), nsed=(1, 5), out=False, nz=(2, 6), real=False))
    return dict(d=d, o=[draw(obj(d)) for _ in range(draw(st.integers(1, 4)))], arr=draw(st.booleans()),
                p=draw(st.lists(st.booleans(), min_size=1, max_size=5)), mc=draw(st.sampled_from([0, 0, 3])),
                never=draw(st.integers(0, 5)) == 0, seed=draw(st.integers(0, 9999)))


@sub("C08", "retry", retry_, 200, 8000, rule="the solver ran out of iterations at least once")
def retry(case, ctx):
    """Injected fault: the solver runs out of iterations.  The fit is then repeated with
    more, for the best fit as for Monte Carlo samples; if that fails too the caller is told."""
    d = case["d"]
    B = gen.build(d, ctx)
    k = B.k
    os_ = case["o"] if case["arr"] else case["o"][:1]
    fs, ivs = zip(*[arrays(B, o) for o in os_])
    zs = [o["z"] for o in os_]
    kw = dict(redshift=np.float32(zs), maggies=np.array(fs), ivar=np.array(ivs))
    if not case["arr"]:
        kw = {a: b[0] for a, b in kw.items()}
    if case["mc"]:
        kw["mc"] = case["mc"]
    np.random.seed(case["seed"])
    if case["never"]:
        with Exhausted([True], never=True) as ex:
            try:
                k.fit_coeffs(**kw)
            except Exception:
                ctx.nt(ex.failed > 0)
                ctx.label("never converges")
                return
        ctx.expect(ex.failed == 0, "fit_coeffs returned although the solver never converged")
        return
    with Exhausted(case["p"]) as ex:
        r = ctx.call("fit_coeffs with the solver out of iterations", k.fit_coeffs, **kw)
    ctx.nt(ex.failed > 0)
    ctx.label("retried" if ex.failed else "not retried", "mc" if case["mc"] else "best fit")
    lead = (len(os_),) if case["arr"] else ()
    if case["mc"]:
        c, cm, fm = [np.asarray(x).reshape((len(os_),) + np.shape(x)[len(lead):]) for x in r]
    else:
        c = np.asarray(r).reshape((len(os_), -1))
    for i, z in enumerate(zs):
        optimal(ctx, "after running out of iterations", B, z, fs[i], ivs[i], c[i])
        for j in range(case["mc"]):
            if B.m.zmin <= z <= B.m.zmax:
                optimal(ctx, "sample %d after running out of iterations" % j, B, z, fm[i, :, j], ivs[i], cm[i, :, j])
