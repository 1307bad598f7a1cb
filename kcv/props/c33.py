"""C33: results for one band, template or object do not depend on the bookkeeping around it."""
import copy

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub
from kcv.gen import col

from .c10 import compare, everything, pos

KINDS = ["bands", "out", "tmpl", "scale", "split", "band+", "out+", "grid", "layout", "memory"]


@st.composite
def case_(draw, kinds=KINDS, **kw):
    d = draw(gen.config(nb=(1, 4), nsed=(1, 4), nz=(2, 8), real=False, **kw))
    o = draw(gen.objects(d, n=(1, 4)))
    n, nout, ns = len(d["b"]), len(d.get("out", d["b"])), gen.ntmpl(d)
    ts = []
    for kind in draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3, unique=True)):
        t = dict(k=kind)
        if kind == "bands":
            t["p"] = draw(st.permutations(list(range(n))))
        elif kind == "out":
            t["p"] = draw(st.lists(st.integers(0, nout - 1), min_size=1, max_size=6))
        elif kind == "tmpl":
            t["p"] = draw(st.permutations(list(range(ns))))
        elif kind == "scale":
            t["i"], t["e"] = draw(st.integers(0, ns - 1)), draw(st.integers(-2, 2))
        elif kind == "split":
            t["i"], t["a"] = draw(st.integers(0, ns - 1)), draw(st.sampled_from([0., .5, .75, 1.]))
        elif kind == "band+":
            t["b"], t["f"] = draw(gen.resp_any()), draw(st.sampled_from([0., 1e-9, -1e-3, float("nan")]))
            t["i"] = draw(st.integers(0, n))
        elif kind == "out+":
            t["b"], t["i"], t["m"] = draw(gen.resp_any()), draw(st.integers(0, nout)), draw(st.integers(0, n - 1))
        elif kind == "grid":
            t["j"] = draw(st.lists(st.integers(0, 4), min_size=2, max_size=2))
        ts.append(t)
    return dict(d=d, o=o, b=draw(gen.band_shift(d)), t=ts)


class View:
    """A configuration and its objects, changed step by step, with the way back to
    the results of the original."""

    def __init__(self, d, o):
        self.d, self.o = copy.deepcopy(d), copy.deepcopy(o)
        n = len(d["b"])
        self.names = [gen.h(s) for s in d["b"]]
        self.map = list(d.get("map", range(n)))
        self.out = list(d.get("out", d["b"]))
        self.back_out = list(range(len(self.out)))      # original output band -> column
        self.want_out = list(range(len(self.out)))      # the original ones that remain
        self.coef = [lambda c: c]

    def apply(self, t):
        d, o, kind = self.d, self.o, t["k"]
        if kind == "bands":
            if len(set(self.names)) < len(self.names):
                return False
            p = [i for i in t["p"] if i < len(d["b"])] + list(range(len(t["p"]), len(d["b"])))
            inv = [p.index(i) for i in range(len(p))]
            d["b"] = [d["b"][i] for i in p]
            self.map = [inv[i] for i in self.map]
            for x in o:
                x["f"], x["iv"] = [x["f"][i] for i in p], [x["iv"][i] for i in p]
        elif kind == "out":
            p = t["p"]
            self.select(p)
        elif kind == "tmpl":
            ns = gen.ntmpl(d)
            p = [i for i in t["p"] if i < ns] + list(range(len(t["p"]), ns))
            inv = [p.index(i) for i in range(ns)]
            self.templates(p)
            for x in o:
                x["c"] = [x["c"][i] for i in p]
            self.coef.append(lambda c: c[..., inv])
        elif kind == "scale":
            i, a = t["i"], 10.**t["e"]
            d["t"]["sed"][i]["n"] += t["e"]
            for q in gen.PROPS:
                if q != "mets":
                    d["t"]["m"][q][i] *= a
            for x in o:
                x["c"][i] = gen.f32(x["c"][i] / a)
            self.coef.append(lambda c: c * np.where(np.arange(c.shape[-1]) == i, a, 1.))
        elif kind == "split":
            i, a, ns = t["i"], t["a"], gen.ntmpl(d)
            self.templates(list(range(ns)) + [i])
            for x in o:
                c = x["c"][i]
                x["c"] = x["c"] + [c * (1 - a)]
                x["c"][i] = c * a

            def unsplit(c):
                r = np.array(c[..., :-1], float)
                r[..., i] += c[..., -1]
                return r
            self.coef.append(unsplit)
        elif kind == "band+":
            if gen.h(t["b"]) in [gen.h(s) for s in d["b"]]:
                return False
            i = t["i"]
            d["b"].insert(i, t["b"])
            self.names.append(gen.h(t["b"]))
            self.map = [m + (m >= i) for m in self.map]
            for x in o:
                x["f"].insert(i, t["f"])
                x["iv"].insert(i, 0.)
        elif kind == "out+":
            i = min(t["i"], len(self.out))
            self.out.insert(i, t["b"])
            self.map.insert(i, t["m"])
            self.back_out = [j + (j >= i) for j in self.back_out]
        elif kind == "grid":
            z0, z1 = d["z"]
            s = (z1 - z0) / (d["nz"] - 1)
            j, k = t["j"]
            while j and z0 - j * s < -0.5:
                j -= 1
            d["z"], d["nz"] = [z0 - j * s, z1 + k * s], d["nz"] + j + k
            return j + k > 0
        elif kind == "layout":
            d["t"]["lay"] = "bin" if d["t"]["lay"] == "table" else "table"
        elif kind == "memory":
            d["it"] = 1 - d.get("it", 1)
        return True

    def select(self, p):
        """Keeps the columns p of the output."""
        p = [i for i in p if i < len(self.out)]
        if not p:
            p = [0]
        self.out, self.map = [self.out[i] for i in p], [self.map[i] for i in p]
        keep = [(w, b) for w, b in zip(self.want_out, self.back_out) if b in p]
        self.want_out, self.back_out = [w for w, _ in keep], [p.index(b) for _, b in keep]

    def templates(self, p):
        t = self.d["t"]
        t["sed"] = [copy.deepcopy(t["sed"][i]) for i in p]
        for q in gen.PROPS:
            v = t["m"][q]
            t["m"][q] = [v[i] for i in p]

    def config(self):
        self.d["out"], self.d["map"] = self.out, self.map
        return self.d

    def results(self, r):
        """The results of the changed configuration in the terms of the original."""
        r = dict(r)
        c = np.asarray(r.pop("fit"), float)
        for f in self.coef[::-1]:
            c = f(c)
        r["fit"] = c
        for key in ("out", "k", "a", "r", "l", "derived mtol"):
            r[key] = np.asarray(r[key])[..., self.back_out]
        r.pop("rec")
        return r


def body(case, ctx):
    d, o, b = case["d"], case["o"], case["b"]
    v = View(d, o)
    done = [t["k"] for t in case["t"] if v.apply(t)]
    if not done:
        return
    ctx.label(*done)
    d2 = v.config()
    B = gen.build(d, ctx)
    B2 = gen.build(d2, ctx)
    what = "the configuration after %s" % " and ".join(done)
    cols = [np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D")]
    cols2 = [np.float32(col(v.o, x)) for x in ("z", "f", "iv", "c", "D")]
    n = np.arange(len(o))
    r1 = ctx.call("calls", everything, B.k, *cols, n, b)
    r2 = ctx.call("calls with " + what, everything, B2.k, *cols2, n, b)
    r2 = v.results(r2)
    rec1, r1 = np.asarray(r1["rec"], float), {k: x for k, x in r1.items() if k != "rec"}
    for key in ("out", "k", "a", "r", "l", "derived mtol"):
        r1[key] = np.asarray(r1[key])
    ctx.nt(v.want_out and any(any(x["c"]) for x in o))
    compare(ctx, what, B, o, list(range(len(o))), r1, r2, b, fac=2.5, cols=v.want_out)
    # input bands, by name
    rec2 = ctx.call("reconstruct", B2.k.reconstruct, redshift=cols2[0], coeffs=cols2[3])
    at = [gen.h(s) for s in d2["b"]]
    for i, s in enumerate(d["b"]):
        j = at.index(gen.h(s))
        for q, x in enumerate(o):
            _, tol = B.m.reconstruct("in", x["z"], x["c"])
            ctx.within("reconstruct in band %d, object %d of %s" % (i, q, what), rec2[q, j], rec1[q, i], 2.5 * tol[i] + 1e-36)


@sub("C33", "full", case_, 420, 12000, rule="a changed configuration with a model flux (templates covering all bands)")
def full(case, ctx):
    body(case, ctx)


@sub("C33", "partial", lambda: case_(kinds=[k for k in KINDS if k != "grid"], full=False), 160, 6000,
     rule="a changed configuration with a model flux (templates covering only some bands)")
def partial(case, ctx):
    body(case, ctx)
