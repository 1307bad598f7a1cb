"""C35: calls neither change nor depend on the state of the process around them."""
import os
import random
import warnings

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub
from kcv.gen import col

from .c10 import pos
from .c11 import leaves

CALLS = ["new", "fit", "rec", "out", "k", "abs", "der", "absmc", "dermc", "save", "copyload", "load", "list", "valid", "sed", "band",
         "ab", "asinh", "floor", "flambda", "basel", "survey", "bad", "plot", "plot"]


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 4), big=False, zmin_neg=False))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 3))), calls=draw(st.lists(st.sampled_from(CALLS), min_size=2, max_size=8)),
                seed=draw(st.integers(0, 2**31 - 1)), s=draw(gen.pts_sed(nmax=12)), r=draw(gen.resp_any()),
                env=draw(st.lists(st.sampled_from(["cwd", "err", "print", "warn", "units"]), unique=True, max_size=4)),
                dirs=draw(st.booleans()), band=draw(st.sampled_from(["bessell_B", "sdss_u0", "twomass_H"])))


def state():
    """What a caller sees of its process."""
    import astropy.cosmology
    import astropy.io.fits as fits
    import matplotlib
    import matplotlib.pyplot as plt
    r = np.random.get_state()
    import locale
    import signal
    import sys
    return {
        "the state of numpy.random": (r[0], r[1].tobytes(), r[2], r[3], r[4]),
        "the state of random": random.getstate(),
        "numpy's error handling": dict(np.geterr()),
        "numpy's print options": str(sorted(np.get_printoptions().items(), key=str)),
        "the warning filters": [(f[0], f[2].__name__, f[4]) for f in warnings.filters],
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "matplotlib's settings": str(sorted(dict(matplotlib.rcParams).items())),
        "the open figures": list(plt.get_fignums()),
        "the default cosmology": astropy.cosmology.default_cosmology.get().name,
        "astropy's FITS settings": [(n, getattr(fits.conf, n)) for n in ("enable_record_valued_keyword_cards", "use_memmap", "lazy_load_hdus",
                                                                        "strip_header_whitespace")],
        "the locale": locale.setlocale(locale.LC_ALL),
        "the recursion limit": sys.getrecursionlimit(),
        "the interrupt handler": signal.getsignal(signal.SIGINT),
        "the module search path": list(sys.path),
        "the umask": umask(),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            s = os.stat(os.path.join(base, f))
            out[os.path.relpath(os.path.join(base, f), d)] = (s.st_size, s.st_mtime_ns)
    return out


def perform(case, ctx, wd):
    """Results of the calls, each followed by a look at the process."""
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    import kcorrect.utils as ku
    d, o = case["d"], case["o"]
    Z, F, IV, C, D = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c", "D"))
    k = ctx.call("construction", gen.make, d)
    nb, out = F.shape[1], []
    f = kr.ResponseDict()
    q = os.path.join(wd, "saved.fits")
    for nm in case["calls"]:
        before = state()
        files = tree(wd)
        r = None
        if nm == "new":
            k = ctx.call("construction", gen.make, d)
        elif nm == "fit":
            r = k.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV)), k.fit_coeffs(redshift=Z[0], maggies=F[0], ivar=pos(IV[0]))
        elif nm == "rec":
            r = k.reconstruct(redshift=Z, coeffs=C)
        elif nm == "out":
            r = k.reconstruct_out(redshift=0 * Z, coeffs=C)
        elif nm == "k":
            r = k.kcorrect(redshift=Z, coeffs=C), k.kcorrect(redshift=Z[0], coeffs=C[0])
        elif nm == "abs":
            r = k.absmag(redshift=Z, maggies=F, ivar=IV, coeffs=C, reconstruct=True, limit=True)
        elif nm == "der":
            r = k.derived(redshift=Z, coeffs=C)
        elif nm == "absmc":
            r = k.absmag_mc(redshift=Z, maggies_mc=F[..., None] * np.float32([1, 1.5]), ivar=IV, coeffs_mc=C[..., None] * np.float32([1, .5]))
        elif nm == "dermc":
            r = k.derived_mc(redshift=Z, coeffs_mc=C[..., None] * np.float32([1, .5]))
        elif nm in ("save", "copyload"):
            ctx.call("tofits", k.tofits, q)
            if nm == "copyload":
                k2 = ctx.call("Kcorrect(filename)", kk.Kcorrect, filename=q, cosmo=k.cosmo)
                r = k2.reconstruct(redshift=Z, coeffs=C)
            os.unlink(q)
        elif nm == "load":
            r = ()
            for n in (gen.resp_name(case["r"]), case["band"]):
                f.pop(n, None)
                ctx.call("load_response", f.load_response, n)
                r += f[n].lambda_eff, f[n].fwhm
        elif nm == "list":
            r = len(kr.all_responses())
        elif nm == "valid":
            e = os.path.join(wd, "empty")
            os.makedirs(e, exist_ok=True)
            gen.write_dat(os.path.join(e, "x.dat"), *gen.resp_arrays(dict(k="g", c=7000., s=300., n=15, e=2.5, a=1.)))
            with open(os.path.join(e, "y.dat"), "w") as fp:
                fp.write("not a table\n")
            files = tree(wd)
            keep = f.get("x")
            r = len(kr.all_responses(response_dir=e, check_validity=True))
            f.pop("x", None)
            if keep is not None:
                f["x"] = keep
        elif nm in ("sed", "band"):
            w, fl = gen.sed_arrays(case["s"])
            s = ctx.call("SED", kt.SED, wave=np.float32(w), flux=np.float32(fl))
            s.set_redshift(.3)
            if nm == "band":
                rr, rv = gen.curve(case["r"]).w, gen.curve(case["r"]).r
                R = ctx.call("Response", kr.Response, wave=rr, response=rv)
                r = R.project(sed=s), R.lambda_eff
            else:
                s.tofits(q)
                t = kt.SED(filename=q)
                r = np.array(t.flux)
                del t
                os.unlink(q)
        elif nm == "plot":
            import matplotlib.pyplot as plt
            w, fl = gen.sed_arrays(case["s"])
            s = ctx.call("SED", kt.SED, wave=np.float32(w), flux=np.abs(np.float32(fl)) + np.float32(1e-20))
            fig = plt.figure()
            kw = dict(wavelim=[float(w[0]) * .9, float(w[-1]) * 1.1]) if case["seed"] % 2 else {}
            ctx.call("plot", s.plot, **kw)
            r = [x.get_ydata() for x in fig.axes[0].lines]
            plt.close(fig)
        elif nm == "ab":
            r = ku.sdss_ab_correct(maggies=np.float32([1., 2., 3., 4., 5.]), ivar=np.float32([1., 2., 3., 4., 0.]))
        elif nm == "asinh":
            r = ku.sdss_asinh_to_maggies(mag=np.float32([20., 21., 22., 23., 24.]), mag_err=np.float32([.1, .2, .1, .2, .4]))
        elif nm == "floor":
            r = ku.error_floor(floor=[.02] * nb, maggies=F, ivar=pos(IV))
        elif nm == "flambda":
            r = ku.maggies2flambda(maggies=np.float32([1e-9, 2e-9]), responses=["sdss_g0", "sdss_r0"])
        elif nm == "basel":
            r = ku.read_basel(ref.data_dir("basel", "lcbsun.ori"))[2][0][::50]
        elif nm == "survey":
            T = kt.Template(filename=gen.tmpl_file(d["t"]), interpolate=True)
            S = ctx.call("KcorrectSDSS", kk.KcorrectSDSS, templates=T, nredshift=2, redshift_range=[0., .5])
            r = S.fit_coeffs(redshift=np.float32(.1), maggies=np.float32([1, 2, 3, 4, 5]) * np.float32(1e-9), ivar=np.ones(5, np.float32) * 1e20)
        elif nm == "bad":
            # a request that fails
            ctx.raises("an invalid request", k.reconstruct, redshift=np.float32(d["z"][1] * 3 + 1), coeffs=C[0])
            ctx.raises("an invalid request", kk.Kcorrect, responses=["none"], templates=k.templates, nredshift=2)
        after = state()
        for x in before:
            ctx.expect(before[x] == after[x], lambda: "%s changed %s: %s became %s" % (nm, x, brief(before[x]), brief(after[x])))
        now = tree(wd)
        ctx.expect(now == files, lambda: "%s left files behind or changed some: %s" % (nm, sorted(set(now.items()) ^ set(files.items()))))
        out.append([np.array(v, float) for v in leaves(r)] if r is not None else [])
    return out


def decoy():
    """A directory like kcorrect's, with other contents."""
    d = gen.scratch("decoy")
    if not os.path.exists(os.path.join(d, "done")):
        for p in ("responses", "templates", "basel"):
            os.makedirs(os.path.join(d, "data", p), exist_ok=True)
        for n in ("bessell_B", "sdss_u0", "sdss_g0", "sdss_r0", "twomass_H"):
            gen.write_dat(os.path.join(d, "data", "responses", n + ".dat"), *gen.resp_arrays(dict(k="g", c=30000., s=300., n=15, e=2.5, a=1.)))
        for n in ("templates/kcorrect-default-v4.fits", "basel/lcbsun.ori", "basel/lcbvega.ori"):
            with open(os.path.join(d, "data", n), "w") as fp:
                fp.write("nothing\n")
        open(os.path.join(d, "done"), "w").close()
    return d


def brief(x):
    return repr(x)[:80]


@sub("C35", "ambient", case_, 320, 9000, rule="at least two different calls")
def ambient(case, ctx):
    ctx.nt(len(set(case["calls"])) > 1)
    ctx.label(*case["calls"])
    wd = os.path.join(gen.scratch("c35"), "w%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    here = os.getcwd()
    import matplotlib
    old = np.random.get_state(), np.geterr(), np.get_printoptions(), random.getstate(), list(warnings.filters), dict(matplotlib.rcParams)
    ref0 = None
    try:
        os.chdir(wd)
        np.random.seed(case["seed"] % 2**32)
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        warnings.resetwarnings()
        warnings.simplefilter("default")
        ref0 = perform(case, ctx, wd)
        # the same calls in another state of the process
        sub_ = os.path.join(wd, "elsewhere")
        env = case["env"]
        ctx.label(*env)
        with warnings.catch_warnings():
            import astropy.cosmology
            if "cwd" in env:
                os.makedirs(sub_, exist_ok=True)
                os.chdir(sub_)
            np.seterr(**(dict(all="ignore") if "err" in env else dict(divide="print", over="print", under="ignore", invalid="print")))
            if case["dirs"]:
                # the variable that the C and IDL versions heed
                os.environ["KCORRECT_DIR"] = decoy()
                ctx.label("KCORRECT_DIR set")
            if "print" in env:
                np.set_printoptions(precision=2, threshold=3, suppress=True)
            if "warn" in env:
                warnings.simplefilter("ignore")
            np.random.seed((case["seed"] + 1) % 2**32)
            random.seed(7)
            if "units" in env:
                with astropy.cosmology.default_cosmology.set("WMAP5"):
                    got = perform(case, ctx, wd)
            else:
                got = perform(case, ctx, wd)
        for nm, a, b in zip(case["calls"], ref0, got):
            ctx.expect(len(a) == len(b), "%s returns something else in another environment %s" % (nm, env))
            for x, y in zip(a, b):
                ctx.expect(x.shape == y.shape and np.array_equal(x, y, equal_nan=True),
                           lambda: "%s depends on the state of the process (%s, random seed): %s, before %s" % (
                               nm, env, brief(y.tolist()), brief(x.tolist())))
    finally:
        os.chdir(here)
        os.environ.pop("KCORRECT_DIR", None)
        np.random.set_state(old[0])
        np.seterr(**old[1])
        np.set_printoptions(**{x: v for x, v in old[2].items() if x != "override_repr"})
        random.setstate(old[3])
        warnings.filters[:] = old[4]
        getattr(warnings, "_filters_mutated", lambda: None)()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update({x: v for x, v in old[5].items() if matplotlib.rcParams[x] is not v and matplotlib.rcParams[x] != v})
        import shutil
        shutil.rmtree(wd, ignore_errors=True)
