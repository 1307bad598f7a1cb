"""C26: flux densities from maggies are placed at the effective wavelength."""
import copy

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub

CAB = 3631e-23 * 2.99792e18


@st.composite
def case_(draw):
    nb = draw(st.integers(1, 8))
    pool = [draw(gen.resp_any()) for _ in range(draw(st.integers(1, nb)))]
    b = [draw(st.sampled_from(pool)) for _ in range(nb)]
    n = draw(st.integers(0, 5))
    rows = []
    for _ in range(max(n, 1)):
        base = draw(st.sampled_from([1e-9, 1e-7, 1e-12, 1.]))
        rows.append([[gen.f32(base * draw(st.sampled_from([1, 1, -1, 0])) * draw(gen.lg(.1, 10, 40))) for _ in range(nb)],
                     [gen.f32(draw(st.sampled_from([1, 1, 0])) * draw(gen.lg(.1, 100, 40)) / base**2) for _ in range(nb)]])
    return dict(b=b, n=n, rows=rows, load=[draw(st.booleans()) for _ in range(nb)],
                w=draw(st.sampled_from(["f4", "f8", "be4", "be8", "nc", "F", "ro"])), tup=draw(st.booleans()))


@sub("C26", "flambda", case_, 1000, 25000, rule="two different bands, or bands not loaded before")
def flambda(case, ctx):
    import kcorrect.response as kr
    import kcorrect.utils as ku
    R = kr.ResponseDict()
    names = [gen.resp_name(s) for s in case["b"]]
    other = "sdss_r0"
    R.load_response(other)
    for n, ld in zip(names, case["load"]):
        if n != other:
            R.pop(n, None)
    for n, ld in zip(names, case["load"]):
        if ld:
            R.load_response(n)
    before = dict(R)
    f, iv = np.float32(col0(case["rows"], 0)), np.float32(col0(case["rows"], 1))
    if not case["n"]:
        f, iv = f[0], iv[0]
    w = case["w"]
    arg = tuple(names) if case["tup"] else list(names)
    keep = list(names)
    a = gen.wrap(f, w), gen.wrap(iv, w)
    old = copy.deepcopy(a)
    ctx.nt(len(set(names)) > 1 or any(n not in before for n in names))
    ctx.label("objects" if case["n"] else "one object", "not loaded before" if any(n not in before for n in names)
              else "all loaded", "repeated band" if len(set(names)) < len(names) else "distinct bands")
    r = ctx.call("maggies2flambda", ku.maggies2flambda, maggies=a[0], ivar=a[1], responses=arg)
    ctx.expect(isinstance(r, tuple) and len(r) == 3, "maggies2flambda with ivar does not return three arrays")
    lam = np.array([gen.curve(s).lambda_eff() for s in case["b"]])
    ab = CAB / lam**2
    ctx.close("effective wavelengths", r[0], lam, rtol=1e-5)
    ctx.close("flux densities", r[1], f.astype(float) * ab, rtol=4e-5)
    ctx.close("inverse variances of the flux densities", r[2], iv.astype(float) / ab**2, rtol=8e-5)
    # the wavelength is that of the registered bandpass
    ctx.close("wavelength and lambda_eff of the bandpass", r[0], [float(R[n].lambda_eff) for n in names], rtol=1e-6)
    q = ctx.call("maggies2flambda", ku.maggies2flambda, maggies=a[0], responses=arg)
    ctx.expect(isinstance(q, tuple) and len(q) == 2, "maggies2flambda without ivar does not return two arrays")
    ctx.same("wavelengths without ivar", q[0], r[0])
    ctx.close("flux densities without ivar", q[1], np.asarray(r[1], float), rtol=1e-6)
    # nothing else happens
    ctx.expect(list(arg) == keep, "the band list was changed")
    for x, y in zip(a, old):
        ctx.expect(np.array_equal(x, y), "maggies2flambda modified its arguments")
    ctx.expect(set(R) == set(before) | set(names), lambda: "registry: %s appeared, %s vanished"
               % (sorted(set(R) - set(before) - set(names)), sorted(set(before) - set(R))))
    for n, v in before.items():
        ctx.expect(R[n] is v, "the registered bandpass %s was replaced" % n)
    if case["n"]:
        i = case["n"] - 1
        one = ctx.call("maggies2flambda", ku.maggies2flambda, maggies=f[i], ivar=iv[i], responses=arg)
        for nm, x, y in zip(("wavelengths", "flux densities", "inverse variances"), one, (r[0], r[1][i], r[2][i])):
            ctx.close("%s of one object alone" % nm, x, np.asarray(y, float), rtol=2e-6)


def col0(rows, i):
    return [x[i] for x in rows]


@st.composite
def again_(draw):
    return dict(c=[draw(gen.resp_any()) for _ in range(draw(st.integers(2, 4)))],
                how=[draw(st.sampled_from(["assign", "assign", "reload", "drop", "same"])) for _ in range(3)],
                f=draw(gen.lg(1e-10, 1e-7)), n=draw(st.integers(0, 2)), other=draw(st.booleans()))


@sub("C26", "replaced", again_, 400, 10000, rule="a bandpass replaced between two calls")
def replaced(case, ctx):
    """The bandpass registered under a name at the time of the call counts."""
    import os
    import kcorrect.response as kr
    import kcorrect.utils as ku
    f = kr.ResponseDict()
    name = os.path.join(gen.scratch("c26"), "b%d" % os.getpid())
    names = ["sdss_g0", name] if case["other"] else [name]
    m = np.float32(case["f"]) * np.ones((case["n"], len(names)) if case["n"] else len(names), np.float32)
    try:
        for i, s in enumerate(case["c"]):
            how = (["assign"] + case["how"])[i]
            if how != "same":
                c = gen.curve(s)
            if how == "assign":
                f[name] = ctx.call("Response", kr.Response, wave=c.w, response=c.r)
            elif how in ("reload", "drop"):
                gen.write_dat(name + ".dat", c.w, c.r)
                if how == "drop":
                    del f[name]
                ctx.call("load_response", f.load_response, name, **(dict(reload=True) if how == "reload" else {}))
            lam = np.array([gen.curve_of_file("sdss_g0").lambda_eff(), c.lambda_eff()])[-len(names):]
            w, fl, iv = ctx.call("maggies2flambda", ku.maggies2flambda, maggies=m, ivar=1. / m**2, responses=names)
            what = "call %d, after %s: " % (i + 1, how)
            ctx.close(what + "effective wavelengths", w, lam, rtol=1e-5)
            ctx.close(what + "flux densities", fl, m.astype(float) * CAB / lam**2, rtol=4e-5)
            ctx.close(what + "inverse variances", iv, (lam**2 / CAB / m.astype(float))**2, rtol=1e-4)
            ctx.label(how)
        ctx.nt(any(h != "same" for h in case["how"][:len(case["c"]) - 1]))
    finally:
        f.pop(name, None)
        if os.path.exists(name + ".dat"):
            os.unlink(name + ".dat")


@st.composite
def ab_(draw):
    return dict(l=[draw(gen.lg(100, 3e6, 3000)) for _ in range(draw(st.integers(1, 20)))],
                w=draw(st.sampled_from(["f4", "f8", "s"])))


@sub("C26", "sed_ab", ab_, 1000, 20000, shards=2, rule="every case")
def sed_ab(case, ctx):
    """3631 Jy per unit frequency at every wavelength, on 32- and 64-bit grids."""
    import kcorrect.utils as ku
    ctx.nt()
    l = np.array(case["l"])
    if case["w"] == "s":
        ctx.close("sed_ab", ctx.call("sed_ab", ku.sed_ab, float(l[0])), CAB / l[0]**2, rtol=1e-5)
        return
    x = gen.wrap(l, case["w"])
    ctx.close("sed_ab", ctx.call("sed_ab", ku.sed_ab, x), CAB / np.asarray(x, float)**2, rtol=1e-5)
