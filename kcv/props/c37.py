"""C37: an interrupted operation leaves nothing half done behind."""
import functools
import os
import shutil
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from kcv import boot, gen
from kcv.core import sub
from kcv.gen import col

from .c10 import pos

OPS = ["fit", "mc", "rec", "out", "k", "abs", "absmc", "der", "dermc", "floor", "flambda",
       "new", "new", "load", "load", "reload", "valid", "valid", "redshift", "redshift", "save", "save", "open", "open", "proj"]


@functools.lru_cache(None)
def ours(filename):
    return os.path.realpath(filename).startswith(os.path.realpath(boot.REPO_SRC) + "/kcorrect/")


class Interrupt:
    """Raises KeyboardInterrupt before the m-th execution of one line of kcorrect's
    code (at = (line, m)); without one, only counts the executions of every line
    in the order in which they are first reached."""

    def __init__(self, at=None):
        self.at, self.lines, self.where = at, {}, None

    def _line(self, frame, event, arg):
        if event == "line" and self.where is None:
            x = (frame.f_code.co_filename, frame.f_lineno)
            n = self.lines[x] = self.lines.get(x, 0) + 1
            if (x, n) == self.at:
                self.where = "%s:%d" % (os.path.basename(x[0]), x[1])
                raise KeyboardInterrupt()
        return self._line

    def _call(self, frame, event, arg):
        return self._line if ours(frame.f_code.co_filename) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 5), big=False, zmin_neg=False))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        # any line, at its first, last or another execution
        ops.append(dict(op=draw(st.sampled_from(OPS)), u=draw(gen.lin(0, .999)), m=draw(st.sampled_from(["first", "last", "some"])),
                        r=draw(gen.resp_any()), z=draw(gen.lin(.01, 2, 100)), twice=draw(st.booleans())))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 2))), ops=ops, s=draw(gen.pts_sed(nmax=12)), seed=draw(st.integers(0, 999)))


def leaves(r):
    if isinstance(r, dict):
        r = [r[x] for x in sorted(r)]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in leaves(x)]
    return [r]


def results(k, case):
    o = case["o"]
    Z, F, IV, C = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c"))
    r = [k.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV)), k.reconstruct(redshift=Z, coeffs=C),
         k.reconstruct_out(redshift=0 * Z, coeffs=C), k.absmag(redshift=Z, maggies=F, ivar=IV, coeffs=C, reconstruct=True, limit=True),
         k.derived(redshift=Z, coeffs=C), k.templates.restframe_wave, k.templates.restframe_flux, k.redshifts, k.imap,
         [getattr(k.templates, p) for p in gen.PROPS]]
    return [np.array(x) for x in leaves(r)]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == "f") for x, y in zip(a, b))


def rstate(R):
    return [np.array(getattr(R, n), float) for n in ("wave", "response", "lambda_eff", "fwhm", "nwave")] + [
        np.array([np.nan if getattr(R, n) is None else float(getattr(R, n)) for n in ("solar_magnitude", "vega2ab") if hasattr(R, n)])]


@sub("C37", "interrupt", case_, 800, 24000, rule="an operation was interrupted")
def interrupt(case, ctx):
    wd = os.path.join(gen.scratch("c37"), "w%d" % os.getpid())
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run(case, ctx, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(case, ctx, wd):
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    import kcorrect.utils as ku
    d, o = case["d"], case["o"]
    Z, F, IV, C = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c"))
    f = kr.ResponseDict()
    k = ctx.call("construction", gen.make, d)
    base = ctx.call("calls", results, k, case)
    names = list(dict.fromkeys([str(x) for x in list(k.responses) + list(k.responses_out)]))
    entries = {n: rstate(f[n]) for n in names}
    t0 = float(k.templates.redshift), np.array(k.templates.wave), np.array(k.templates.flux)
    saved = os.path.join(wd, "saved.fits")
    ctx.call("tofits", k.tofits, saved)
    w, fl = gen.sed_arrays(case["s"])
    w, fl = np.float32(w), np.float32(fl)
    S = ctx.call("SED", kt.SED, wave=w, flux=fl)
    g5 = np.float32(1e-9) * np.arange(1, 6, dtype=np.float32)
    vdir = os.path.join(wd, "valid")
    os.makedirs(vdir)
    for nm in ("kcv1", "kcv2"):
        gen.write_dat(os.path.join(vdir, nm + ".dat"), *gen.resp_arrays(dict(k="g", c=7000., s=300., n=15, e=2.5, a=1.)))
    with open(os.path.join(vdir, "kcv3.dat"), "w") as fp:
        fp.write("not a table\n")
    for j, op in enumerate(case["ops"]):
        nm = op["op"]
        n = gen.resp_name(op["r"])
        z = np.float32(op["z"])
        path = os.path.join(wd, "out.fits")

        def do():
            """The operation; (its results, a function to look at what it changed)."""
            if nm == "fit":
                return k.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV))
            if nm == "mc":
                np.random.seed(case["seed"])
                return k.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV), mc=2)
            if nm == "rec":
                return k.reconstruct(redshift=Z, coeffs=C)
            if nm == "out":
                return k.reconstruct_out(redshift=0 * Z, coeffs=C)
            if nm == "k":
                return k.kcorrect(redshift=Z, coeffs=C)
            if nm == "abs":
                return k.absmag(redshift=Z, maggies=F, ivar=IV, coeffs=C, reconstruct=True, limit=True)
            if nm == "absmc":
                return k.absmag_mc(redshift=Z, maggies_mc=F[..., None] * np.float32([1, 2]), ivar=IV, coeffs_mc=C[..., None] * np.float32([1, 2]))
            if nm == "der":
                return k.derived(redshift=Z, coeffs=C)
            if nm == "dermc":
                return k.derived_mc(redshift=Z, coeffs_mc=C[..., None] * np.float32([1, 2]))
            if nm == "floor":
                return ku.error_floor(floor=[.02] * F.shape[1], maggies=F, ivar=pos(IV))
            if nm == "flambda":
                return ku.maggies2flambda(maggies=g5, ivar=1. / g5**2, responses=["sdss_g0", n, "sdss_r0", n, "sdss_u0"])
            if nm == "new":
                # with the templates of k
                q = gen.make(d, templates=k.templates)
                return results(q, case)
            if nm == "load":
                f.load_response(n)
                return rstate(f[n])
            if nm == "reload":
                f.load_response(n, reload=True)
                return rstate(f[n])
            if nm == "valid":
                return [sorted(kr.all_responses(response_dir=vdir, check_validity=True)) == ["kcv1", "kcv2"]] + \
                    [rstate(f[x]) for x in ("kcv1", "kcv2")]
            if nm == "redshift":
                S.set_redshift(redshift=z)
                return S.wave, S.flux, S.redshift, S.interp(S.wave[len(S.wave) // 2])
            if nm == "proj":
                return f["sdss_r0"].project(sed=S), f["sdss_r0"].project(wave=S.wave, flux=S.flux)
            if nm == "save":
                k.tofits(path)
                return results(kk.Kcorrect(filename=path, cosmo=k.cosmo), case)
            return results(kk.Kcorrect(filename=saved, cosmo=k.cosmo), case)
        f.load_response("sdss_r0")
        # without an interruption
        if nm in ("load", "new", "flambda"):
            for x in [n] + (names if nm == "new" else ["sdss_u0", "sdss_g0"] if nm == "flambda" else []):
                if x not in ("sdss_r0",):
                    f.pop(x, None)
        if nm == "valid":
            for x in ("kcv1", "kcv2"):
                f.pop(x, None)
        cnt = Interrupt()
        with cnt:
            want = ctx.call(nm, do)
        want = [np.array(x) for x in leaves(want)]
        whole = {x: rstate(f[x]) for x in list(f) if x in entries or x in (n, "kcv1", "kcv2", "sdss_u0", "sdss_g0", "sdss_r0")}
        # and with one, twice
        cheap = nm not in ("new", "save", "open", "valid")
        for rep in range(8 if cheap else 1 + op["twice"]):
            if nm in ("load", "new", "flambda"):
                for x in [n] + (names if nm == "new" else []):
                    if x not in ("sdss_r0",):
                        f.pop(x, None)
            if nm == "valid":
                for x in ("kcv1", "kcv2"):
                    f.pop(x, None)
            if nm == "redshift":
                S.set_redshift(redshift=np.float32(.1))
            if os.path.exists(path):
                os.unlink(path)
            u = (op["u"] + .618034 * rep) % 1.
            lines = list(cnt.lines)
            if not lines:
                break
            at = lines[int(u * len(lines))]
            n_at = cnt.lines[at]
            it = Interrupt((at, dict(first=1, last=n_at, some=1 + int((u * 97) % 1. * n_at))[op["m"]]))
            hit = False
            with it:
                try:
                    do()
                except KeyboardInterrupt:
                    hit = True
                except Exception as e:
                    sys.settrace(it.old)
                    ctx.violate("%s interrupted at %s raised %s: %s" % (nm, it.where, type(e).__name__, str(e)[:200]))
            ctx.label(nm)
            what = "step %d: %s interrupted at %s" % (j, nm, it.where)
            if it.where is None:
                continue
            ctx.nt()
            ctx.expect(hit, lambda: what + ": the interruption was swallowed")
            # what there was before
            if nm == "new" and it.where.startswith("response.py"):
                T = k.templates
                ctx.expect(float(T.redshift) == t0[0] and np.array_equal(T.wave, t0[1]) and np.array_equal(T.flux, t0[2]),
                           lambda: "%s: the templates passed in are left at redshift %s" % (what, T.redshift))
            for x in list(f):
                if x in whole:
                    ctx.expect(_rs(f[x]) is not None and equal(rstate(f[x]), whole[x]), lambda: "%s: bandpass %s is registered incomplete" % (what, x))
            if os.path.exists(path):
                got = None
                try:
                    got = results(kk.Kcorrect(filename=path, cosmo=k.cosmo), case)
                except Exception:
                    ctx.label("incomplete file rejected")
                if got is not None:
                    ctx.expect(equal(got, want), lambda: what + ": the file written so far loads as another object")
            for x in names:
                if x not in f:
                    f.load_response(x)
            ctx.expect(equal(ctx.call("calls after " + what, results, k, case), base), lambda: what + ": the object now gives other results")
            ctx.same(what + ": redshift of a spectrum in use" if nm == "redshift" else what + ": its spectrum",
                     S.restframe_flux[0], fl.reshape(-1, len(w))[0])
            # the operation again
            again = ctx.call("%s repeated after it was interrupted at %s" % (nm, it.where), do)
            again = [np.array(x) for x in leaves(again)]
            ctx.expect(equal(again, want), lambda: what + " and repeated: other results than without the interruption")
        # a fresh object, and the file saved before
        if nm in ("new", "open", "save", "load", "reload"):
            k2 = ctx.call("construction after an interruption", gen.make, d)
            ctx.expect(equal(results(k2, case), base), lambda: "a new object after %s was interrupted at %s gives other results" % (nm, it.where))
    for x in names:
        ctx.expect(equal(rstate(f[x]), entries[x]), "bandpass %s changed" % x)
    for x in ("kcv1", "kcv2", "kcv3"):
        f.pop(x, None)


def _rs(R):
    try:
        return rstate(R)
    except Exception:
        return None


class Fault(Exception):
    pass


@st.composite
def fault_(draw):
    d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 5), big=False, zmin_neg=False, real=False))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 3))), s=draw(gen.pts_sed(nmax=12)),
                ops=draw(st.lists(st.fixed_dictionaries(dict(
                    op=st.sampled_from(["band", "band", "range", "name", "map", "cosmo", "cosmo"]), n=st.integers(0, 11), i=st.integers(0, 5),
                    again=st.booleans())), min_size=1, max_size=4)))


@sub("C37", "fault", fault_, 320, 10000, rule="an operation failed half-way")
def fault(case, ctx):
    """Construction and magnitudes fail in the middle: a bandpass object, cosmology or
    grid raises at its n-th use."""
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    d, o = case["d"], case["o"]
    Z, F, IV, C = (np.float32(col(o, x)) for x in ("z", "f", "iv", "c"))
    f = kr.ResponseDict()
    T = ctx.call("Template", kt.Template, filename=gen.tmpl_file(d["t"]), interpolate=bool(d["it"]))
    k = ctx.call("construction", gen.make, d, templates=T)
    base = ctx.call("calls", results, k, case)

    def tstate():
        r = [np.array(x) for x in (T.wave, T.flux, T.restframe_wave, T.restframe_flux, float(T.redshift), T.nsed, T.interp is None,
                                   bool(T.interpolate))]
        if T.interp is not None:
            r.append(np.asarray(T.interp(T.restframe_wave[::7])))
        return r
    t0 = tstate()
    names = list(dict.fromkeys([str(x) for x in list(k.responses) + list(k.responses_out)]))
    for j, op in enumerate(case["ops"]):
        nm = op["op"]
        keys = set(f)
        what = "step %d: " % j
        if nm == "band":
            # the user's own bandpass class, which fails in its n-th projection
            x = names[op["i"] % len(names)]
            real = f[x]

            class Flaky(kr.Response):
                left = op["n"]

                def project(self, *a, **kw):
                    Flaky.left -= 1
                    if Flaky.left < 0:
                        raise Fault("no")
                    return real.project(*a, **kw)
            q = Flaky()
            q.__dict__.update(real.__dict__)
            f[x] = q
            try:
                q2 = None
                try:
                    q2 = gen.make(d, templates=T)
                except Fault:
                    ctx.nt()
                    ctx.label("projection failed")
            finally:
                f[x] = real
            what += "a projection failed during construction"
        elif nm == "range":
            ctx.raises("a redshift range from -1", kk.Kcorrect, responses=names, templates=T, nredshift=3, redshift_range=[-1., .5])
            ctx.nt()
            ctx.label("impossible grid")
            what += "construction with a redshift range from -1 failed"
        elif nm in ("name", "map"):
            kw = dict(responses=names + ["no_such_band"]) if nm == "name" else dict(responses=names, responses_map=["no_such_band"],
                                                                                  responses_out=names[:1])
            ctx.raises("an unknown band", kk.Kcorrect, templates=T, nredshift=3, redshift_range=[0., .5], **kw)
            ctx.nt()
            ctx.label("unknown band")
            what += "construction with an unknown band failed"
        else:
            # a cosmology that fails at its n-th use

            class Cosmo:
                left = op["n"] % 3

                def __getattr__(self, a):
                    if a.startswith("__"):
                        raise AttributeError(a)
                    v = getattr(gen.cosmo_of(d), a)
                    if not callable(v):
                        return v

                    def call(*b, **kw):
                        Cosmo.left -= 1
                        if Cosmo.left < 0:
                            raise Fault("no")
                        return v(*b, **kw)
                    return call
            old = k.cosmo
            k.cosmo = Cosmo()
            try:
                for _ in range(4):
                    try:
                        if op["i"] % 2:
                            k.absmag(redshift=Z, maggies=F, ivar=IV, coeffs=C, reconstruct=True, limit=True)
                        else:
                            k.derived(redshift=Z, coeffs=C)
                    except Fault:
                        ctx.nt()
                        ctx.label("cosmology failed")
                        break
            finally:
                k.cosmo = old
            what += "a cosmology failed during a call"
        ctx.expect(equal(tstate(), t0), lambda: what + ", and the templates are not as before (redshift %s)" % T.redshift)
        ctx.expect(set(f) - {"no_such_band"} >= keys and "no_such_band" not in f, what + ", and the registry is not as before")
        ctx.expect(equal(ctx.call("calls after " + what, results, k, case), base), lambda: what + ", and the object gives other results")
        if op["again"]:
            q = ctx.call("construction after " + what, gen.make, d, templates=T)
            ctx.expect(equal(results(q, case), base), lambda: what + ", and the construction repeated gives other results")
            ctx.expect(equal(tstate(), t0), lambda: what + ", repeated, and the templates are not as before (redshift %s)" % T.redshift)
