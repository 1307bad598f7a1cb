"""C10: array calls equal object-by-object calls; containers are interchangeable."""
import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 5), nsed=(1, 5), nz=(2, 8)))
    o = draw(gen.objects(d))
    for i in range(1, len(o)):
        # repeat observations: equal in all but one respect
        like = draw(st.sampled_from(["", "", "", "f", "f", "c", "z", "iv", "all"]))
        if like:
            for key in ("z", "f", "iv", "c", "D"):
                if key != like:
                    o[i][key] = o[i - 1][key]
            o[i]["f"] = [1e-9 if x != x and w != 0 else x for x, w in zip(o[i]["f"], o[i]["iv"])]
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), w=draw(st.sampled_from(gen.CONTAINERS)),
                dist=draw(st.booleans()), opt=draw(st.lists(st.booleans(), min_size=3, max_size=3)),
                s=draw(st.sampled_from([0., 0., .3, .9])), far=draw(st.sampled_from([0, 0, 0, 1])))


def rows(ctx, what, arr, singles, tol):
    """arr[i] equals singles[i]; the shapes follow the scalar result."""
    shp = (len(singles),) + np.shape(singles[0])
    ctx.expect(np.shape(arr) == shp, lambda: "%s: array result has shape %s, scalar results %s"
               % (what, np.shape(arr), np.shape(singles[0])))
    for i, s in enumerate(singles):
        g, w = np.asarray(arr[i], float), np.asarray(s, float)
        fin = np.isfinite(tol[i]) & np.isfinite(w)
        ctx.within("%s: object %d in an array of %d against alone" % (what, i, len(singles)),
                   np.where(fin, g, 0), np.where(fin, w, 0), np.where(fin, tol[i], 1.))


def pos(iv):
    """Weights for a fit (never negative)."""
    return np.maximum(np.float32(iv), np.float32(0.))


def fits_same(ctx, what, B, z, iv, got, want):
    """Coefficients equal, or equivalent where the templates are degenerate."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.expect(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if not (B.m.zmin <= z <= B.m.zmax):
        ctx.close(what, got, want)
        return
    A, tol = B.m.A("in", z)
    if (tol > 1e-2 * np.abs(A))[(A != 0) & (np.asarray(iv, float) > 0)[:, None]].any():
        ctx.label("fit with undetermined model fluxes")
        return
    Aw = A * np.sqrt(np.asarray(iv, float))[:, None]
    sc = np.linalg.norm(Aw, axis=0)
    ok = sc > 0
    u = np.linalg.svd(Aw[:, ok] / sc[ok], compute_uv=False) if ok.any() else np.ones(1)
    if ok.all() and len(u) == ok.sum() and u[-1] > 1e-3 * u[0]:
        ctx.close(what, got * sc, want * sc, rtol=1e-5, scale=np.abs(want * sc).max() + 1e-30)
    pg, pw = Aw @ got, Aw @ want
    ctx.close(what + " (weighted model)", pg, pw, rtol=1e-4, scale=np.abs(Aw) @ np.abs(want) + 1e-30)


@sub("C10", "methods", case_, 640, 20000, rule="at least two different objects, or an array of one, with a model flux")
def methods(case, ctx):
    d, o, w = case["d"], case["o"], case["w"]
    B = gen.build(d, ctx)
    k, m = B.k, B.m
    n = len(o)
    Z, F, IV, C = (gen.wrap(col(o, x), w) for x in ("z", "f", "iv", "c"))
    one = [dict(z=gen.zwrap(x["z"], w), f=gen.wrap(x["f"], w), iv=gen.wrap(x["iv"], w), c=gen.wrap(x["c"], w)) for x in o]
    ctx.label("n=1" if n == 1 else "n>1", w, d["t"]["k"])
    ctx.nt(n == 1 or len(set(map(str, o))) > 1)
    # fit, with one object out of range sometimes
    fz = col(o, "z")
    if case["far"]:
        fz = list(fz)
        fz[-1] = gen.f32(d["z"][1] * 1.3 + .1)
        ctx.label("an object out of range")
    got = ctx.call("fit_coeffs(array)", k.fit_coeffs, redshift=gen.wrap(fz, w), maggies=F,
                   ivar=gen.wrap(pos(col(o, "iv")), w))
    ctx.expect(np.shape(got) == (n, B.nsed), lambda: "fit_coeffs(array): shape %s" % (np.shape(got),))
    for i in range(n):
        s = ctx.call("fit_coeffs", k.fit_coeffs, redshift=gen.zwrap(fz[i], w), maggies=one[i]["f"],
                     ivar=gen.wrap(pos(o[i]["iv"]), w))
        fits_same(ctx, "fit_coeffs: object %d in an array of %d against alone" % (i, n), B, fz[i], pos(o[i]["iv"]), got[i], s)
        if w != "f4":
            s4 = ctx.call("fit_coeffs", k.fit_coeffs, redshift=np.float32(fz[i]), maggies=np.float32(o[i]["f"]),
                          ivar=np.float32(pos(o[i]["iv"])))
            fits_same(ctx, "fit_coeffs: container %s against float32" % w, B, fz[i], pos(o[i]["iv"]), s, s4)
    # reconstruct with one band shift valid for all objects
    zt = max(fz0 for fz0 in col(o, "z"))
    b = gen.f32((zt + (m.zmax - zt) * case["s"] - zt) / (1. + zt)) if case["s"] else 0.
    for meth, which in (("reconstruct", "in"), ("reconstruct_out", "out")):
        fn = getattr(k, meth)
        tol = [m.reconstruct(which, x["z"], x["c"], b)[1] + 1e-37 for x in o]
        arr = ctx.call(meth + "(array)", fn, redshift=Z, coeffs=C, band_shift=b)
        sg = [ctx.call(meth, fn, redshift=one[i]["z"], coeffs=one[i]["c"], band_shift=b) for i in range(n)]
        rows(ctx, meth, arr, sg, tol)
        s4 = [ctx.call(meth, fn, redshift=np.float32(x["z"]), coeffs=np.float32(x["c"]), band_shift=b) for x in o]
        rows(ctx, "%s (container %s, then float32)" % (meth, w), sg, s4, tol)
    # K-corrections
    b = case["b"]
    tk = [m.kcorrect(x["z"], x["c"], b)[1] for x in o]
    arr = ctx.call("kcorrect(array)", k.kcorrect, redshift=Z, coeffs=C, band_shift=b)
    sg = [ctx.call("kcorrect", k.kcorrect, redshift=one[i]["z"], coeffs=one[i]["c"], band_shift=b) for i in range(n)]
    good = [np.where(t < .01, t, np.inf) for t in tk]
    rows(ctx, "kcorrect", arr, sg, good)
    # absolute magnitudes
    kw = dict(reconstruct=case["opt"][0], limit=case["opt"][1], kcorrect=case["opt"][2], band_shift=b)
    names = ["absmag"] + [x for x, y in zip(("reconstruct", "limit", "k"), case["opt"]) if y]
    da = dict(distance=gen.wrap(col(o, "D"), w)) if case["dist"] else {}
    arr = ctx.call("absmag(array)", k.absmag, redshift=Z, maggies=F, ivar=IV, coeffs=C, **kw, **da)
    sg = []
    for i in range(n):
        ds = dict(distance=gen.zwrap(o[i]["D"], w)) if case["dist"] else {}
        sg.append(ctx.call("absmag", k.absmag, redshift=one[i]["z"], maggies=one[i]["f"], ivar=one[i]["iv"],
                           coeffs=one[i]["c"], **kw, **ds))
    if len(names) == 1:
        arr, sg = (arr,), [(s,) for s in sg]
    ctx.expect(len(arr) == len(names) and all(len(s) == len(names) for s in sg),
               lambda: "absmag returned %d and %d arrays for %s" % (len(arr), len(sg[0]), names))
    for j, nm in enumerate(names):
        tol = []
        for x in o:
            t = m.absmag(x["z"], x["f"], x["iv"], x["c"], b, x["D"] if case["dist"] else None)[nm][1]
            tol.append(np.where(t < .01, t + 2e-5, np.inf))
        rows(ctx, "absmag output %s" % nm, arr[j], [s[j] for s in sg], tol)
    # derived
    arr = ctx.call("derived(array)", k.derived, redshift=Z, coeffs=C, band_shift=b, **da)
    sg = []
    for i in range(n):
        ds = dict(distance=gen.zwrap(o[i]["D"], w)) if case["dist"] else {}
        sg.append(ctx.call("derived", k.derived, redshift=one[i]["z"], coeffs=one[i]["c"], band_shift=b, **ds))
    ctx.expect(all(set(s) == set(arr) for s in sg), "derived: the keys of array and scalar calls differ")
    ref_ = [m.derived(x["z"], x["c"], b, x["D"] if case["dist"] else None) for x in o]
    for key in arr:
        tol = []
        for x, s, r in zip(o, sg, ref_):
            t = (1e-4 + 2 * r["dtol"]) * np.abs(np.asarray(s[key], float)) + 1e-30
            if key == "mtol":
                t = np.where(np.isfinite(r["mtol_tol"]), np.maximum(t, r["mtol_tol"]), np.inf)
            tol.append(t)
        rows(ctx, "derived[%s]" % key, arr[key], [s[key] for s in sg], tol)


@st.composite
def order_(draw):
    d = draw(gen.config(nb=(2, 5), nsed=(1, 5), nz=(2, 8)))
    o = draw(gen.objects(d, n=(2, 6)))
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), p=draw(st.permutations(list(range(len(o))))),
                keep=draw(st.integers(1, len(o))))


def everything(k, Z, F, IV, C, D, i, b, fit=True):
    """The results of all methods for the objects i."""
    out = {}
    if fit:
        out["fit"] = k.fit_coeffs(redshift=Z[i], maggies=F[i], ivar=pos(IV[i]))
    out.update(rec=k.reconstruct(redshift=Z[i], coeffs=C[i]),
               out=k.reconstruct_out(redshift=0 * Z[i], coeffs=C[i], band_shift=b),
               k=k.kcorrect(redshift=Z[i], coeffs=C[i], band_shift=b))
    out["a"], out["r"], out["l"] = k.absmag(redshift=Z[i], maggies=F[i], ivar=IV[i], coeffs=C[i], distance=D[i],
                                           band_shift=b, reconstruct=True, limit=True)
    for x, y in k.derived(redshift=Z[i], coeffs=C[i], band_shift=b).items():
        out["derived " + x] = y
    return out


def compare(ctx, what, B, o, p, a, b, shift, fac=1., cols=None):
    """Results b (of the objects p of o, in that order) against a (of all objects o);
    cols: the output bands that b is for, if not all."""
    m = B.m
    for key in a:
        x, y = np.asarray(a[key], float)[p], np.asarray(b[key], float)
        if key == "fit":
            ctx.expect(y.shape == x.shape, lambda: "fit of %s: shape %s, expected %s" % (what, y.shape, x.shape))
            diff = (np.abs(y - x) > 1e-6 * np.abs(x).max(axis=1, keepdims=True)).any(axis=1) if len(p) > 50 else np.ones(len(p))
            for i in np.flatnonzero(diff)[:50]:
                q = p[i]
                fits_same(ctx, "fit of object %d of %s" % (i, what), B, o[q]["z"], pos(o[q]["iv"]), y[i], x[i])
            continue
        pick = (lambda v: v[..., cols]) if cols is not None and x.ndim > 1 else (lambda v: v)
        x = pick(x)
        ctx.expect(x.shape == y.shape, lambda: "%s: shape %s of %s, expected %s" % (key, y.shape, what, x.shape))
        x0 = np.asarray(a[key], float)
        tol = 1e-4 * np.abs(x0) + 1e-37
        for q in range(len(o)):
            if key == "rec":
                tol[q] = m.reconstruct("in", o[q]["z"], o[q]["c"])[1] + 1e-37
            elif key == "out":
                tol[q] = m.reconstruct("out", 0., o[q]["c"], shift)[1] + 1e-37
            elif key in "karl":
                t = m.absmag(o[q]["z"], o[q]["f"], o[q]["iv"], o[q]["c"], shift, o[q]["D"])
                t = t[dict(k="k", a="absmag", r="reconstruct", l="limit")[key]][1]
                tol[q] = np.where(t < .01, t + 2e-5, np.inf)
            elif key.startswith("derived"):
                r = m.derived(o[q]["z"], o[q]["c"], shift)
                tol[q] = (1e-4 + 2 * r["dtol"]) * np.abs(x0[q]) + 1e-37
                if key == "derived mtol":
                    tol[q] = np.maximum(tol[q], r["mtol_tol"])
        tol = fac * pick(tol[p])
        ok = np.isfinite(tol) & np.isfinite(x)
        ctx.within("%s of %s" % (key, what), np.where(ok, y, 0), np.where(ok, x, 0), np.where(ok, tol, 1))


@sub("C10", "order", order_, 260, 8000, rule="a permutation or a subset different from the array itself")
def order(case, ctx):
    """Permuting or taking some of the objects permutes / selects the results."""
    d, o = case["d"], case["o"]
    B = gen.build(d, ctx)
    p = case["p"][:case["keep"]]
    ctx.nt(p != list(range(len(o))))
    cols = [np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D")]
    a = ctx.call("calls on the array", everything, B.k, *cols, np.arange(len(o)), case["b"])
    b = ctx.call("calls on a permuted subset", everything, B.k, *cols, np.array(p), case["b"])
    compare(ctx, "a permuted subset", B, o, p, a, b, case["b"])


@st.composite
def many_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 8), real=False))
    o = draw(gen.objects(d, n=(2, 9)))
    n = draw(st.one_of(gen.lg(20, 20000), gen.lg(20, 2000),
                       st.sampled_from([2**i + j for i in range(5, 15) for j in (0, 1)] +
                                       [i * 10**j + l for i in (1, 2, 5) for j in (2, 3) for l in (0, 1)])))
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), n=int(n), s=draw(st.integers(0, 10**6)))


@sub("C10", "many", many_, 96, 3000, rule="an array of at least 20 objects")
def many(case, ctx):
    """A long array made of a few objects gives the results of those few objects."""
    d, o, n = case["d"], case["o"], case["n"]
    B = gen.build(d, ctx)
    ctx.nt(n >= 20)
    ctx.label("n<100" if n < 100 else "n<1000" if n < 1000 else "n<5000" if n < 5000 else "n>=5000")
    cols = [np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D")]
    p = (np.arange(n) * 7919 + case["s"] + (np.arange(n) // 3)) % len(o)
    fit = n <= 1100 or case["s"] % 4 == 0
    a = ctx.call("calls on the array", everything, B.k, *cols, np.arange(len(o)), case["b"], fit)
    b = ctx.call("calls on a long array", everything, B.k, *cols, p, case["b"], fit)
    compare(ctx, "a long array", B, o, p, a, b, case["b"])


INTS = ["list", "tuple", "i8", "i4", "i2", "u1", ">i4", "py", "bool", "f2"]


@st.composite
def ints_(draw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 8), zmin_neg=False))
    d["z"] = [0., max(d["z"][1], draw(st.sampled_from([1., 1., 1.5])))]
    nb, ns = len(d["b"]), gen.ntmpl(d)
    o = [dict(z=draw(st.integers(0, 1)), f=[draw(st.integers(0, 1)) for _ in range(nb)], D=draw(st.integers(1, 120)),
              iv=[draw(st.integers(0, 1)) for _ in range(nb)], c=[draw(st.integers(0, 1)) for _ in range(ns)])
         for _ in range(draw(st.integers(1, 4)))]
    t = draw(st.sampled_from(INTS))
    if t != "bool":
        q = draw(st.sampled_from([1, 1, 7, 100]))
        for x in o:
            x["f"] = [v * q + v * draw(st.integers(0, 20)) for v in x["f"]]
            x["iv"] = [v * q for v in x["iv"]]
            x["c"] = [v * draw(st.integers(1, 100)) for v in x["c"]]
    else:
        for x in o:
            x["D"] = 1
    return dict(d=d, o=o, t=t, arr=draw(st.booleans()), b=draw(st.integers(0, 1)), s=draw(st.integers(0, 99)))


def as_type(x, t):
    if t in ("list", "py"):
        return x
    if t == "tuple":
        return tuple(map(tuple, x)) if np.ndim(x) == 2 else tuple(x) if np.ndim(x) else x
    return np.asarray(x).astype(t)


@sub("C10", "ints", ints_, 260, 8000, rule="a model flux and a measured one")
def ints(case, ctx):
    """Numbers given as integers (or booleans) are the same numbers."""
    d, t = case["d"], case["t"]
    B = gen.build(d, ctx)
    k = B.k
    o = case["o"] if case["arr"] else case["o"][:1]
    val = {x: [p[x] for p in o] for x in ("z", "f", "iv", "c", "D")}
    if not case["arr"]:
        val = {x: y[0] for x, y in val.items()}
    ctx.nt(np.any(val["f"]) and np.any(val["c"]))
    ctx.label(t, "array" if case["arr"] else "scalar", "band_shift %d" % case["b"])
    fm = (np.asarray(val["f"])[..., None] * [1, 2 if t != "bool" else 0]).tolist()
    cm = (np.asarray(val["c"])[..., None] * [1, 0]).tolist()
    val.update(fm=np.asarray(fm), cm=np.asarray(cm))

    def run(a, b):
        r = {}
        r["fit"] = k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"])
        np.random.seed(case["s"])
        r["mc"] = k.fit_coeffs(redshift=a["z"], maggies=a["f"], ivar=a["iv"], mc=2)
        r["reconstruct"] = k.reconstruct(redshift=a["z"], coeffs=a["c"])
        r["reconstruct_out"] = k.reconstruct_out(redshift=a["z"], coeffs=a["c"])
        r["kcorrect"] = k.kcorrect(redshift=a["z"], coeffs=a["c"], band_shift=b)
        r["absmag"] = k.absmag(redshift=a["z"], maggies=a["f"], ivar=a["iv"], coeffs=a["c"], band_shift=b,
                               distance=a["D"], reconstruct=True, limit=True, kcorrect=True)
        r["derived"] = k.derived(redshift=a["z"], coeffs=a["c"], band_shift=b, distance=a["D"])
        r["absmag_mc"] = k.absmag_mc(redshift=a["z"], maggies_mc=a["fm"], ivar=a["iv"], coeffs_mc=a["cm"],
                                     band_shift=b, distance=a["D"], reconstruct=True, kcorrect=True)
        r["derived_mc"] = k.derived_mc(redshift=a["z"], coeffs_mc=a["cm"], band_shift=b, distance=a["D"])
        return r
    b = case["b"] if d["z"][1] >= 1. else 0
    arr = lambda x: np.asarray(x, dtype=np.float32)
    want = ctx.call("calls with float32", run, {x: arr(y) if np.ndim(y) else np.float32(y) for x, y in val.items()},
                    float(b))
    give = {x: as_type(y, t if x not in ("fm", "cm") or t not in ("list", "tuple", "py") else "i8") for x, y in val.items()}
    got = ctx.call("calls with " + t, run, give, b)
    for key in want:
        w, g = want[key], got[key]
        if isinstance(w, dict):
            ctx.expect(set(w) == set(g), key + ": other keys")
            w, g = [w[x] for x in sorted(w)], [g[x] for x in sorted(w)]
        elif not isinstance(w, tuple):
            w, g = [w], [g]
        ctx.expect(len(w) == len(g), "%s: %d outputs" % (key, len(g)))
        for x, y in zip(w, g):
            x, y = np.asarray(x, float), np.asarray(y, float)
            ctx.expect(x.shape == y.shape, lambda: "%s with %s: shape %s, expected %s" % (key, t, y.shape, x.shape))
            ok = np.isfinite(x)
            ctx.expect((ok == np.isfinite(y)).all(), lambda: "%s with %s: %s, with float32 %s" % (key, t, y.tolist(), x.tolist()))
            ctx.close("%s with %s" % (key, t), np.where(ok, y, 0), np.where(ok, x, 0), rtol=1e-5,
                      atol=2e-5 if key in ("kcorrect", "absmag", "absmag_mc") else 1e-30)
