"""C38: what was read from a file does not depend on the file any more."""
import collections
import gc
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub

from .c10 import pos
from .c37 import equal, leaves

KINDS = ["sed", "sed", "image", "template", "template", "response", "dat", "kcorrect", "kcorrect"]
EVENTS = ["inplace", "inplace", "zeros", "cut", "append", "delete", "rename", "rmdir"]


@st.composite
def case_(draw):
    d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 5), big=False, zmin_neg=False))
    return dict(d=d, o=draw(gen.objects(d, n=(1, 3))), k=draw(st.sampled_from(KINDS)),
                s=draw(st.one_of(gen.pts_sed(nmax=12), gen.smooth_sed(n=(20, 900)))), t=draw(gen.templates(n=(20, 400))),
                r=draw(gen.pts_resp()), ev=draw(st.lists(st.sampled_from(EVENTS), min_size=1, max_size=3)),
                look=draw(st.booleans()), it=draw(st.booleans()), z=draw(gen.lin(0., 2.)), a=draw(st.sampled_from([2., .5, 3.])))


def kresults(k, o):
    Z, F, IV, C = (np.float32(gen.col(o, x)) for x in ("z", "f", "iv", "c"))
    return [k.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV)), k.reconstruct(redshift=Z, coeffs=C), k.kcorrect(redshift=Z, coeffs=C),
            k.derived(redshift=Z, coeffs=C), k.redshifts, k.templates.restframe_wave, k.templates.restframe_flux,
            [getattr(k.templates, p) for p in gen.PROPS], [len(k.responses), len(k.responses_out)]]


def source(case, ctx, p):
    """Writes the file; (reader, what is seen of the object read, the same for a
    changed object: writes it to another path)."""
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    k, a = case["k"], case["a"]
    if k in ("sed", "image"):
        w, f = gen.sed_arrays(case["s"])
        w, f = np.float32(w), np.float32(f)

        def write(q, a):
            s = kt.SED(wave=w, flux=f * np.float32(a) + np.float32(a - 1) * np.float32(1e-9), interpolate=False)
            s.binimage = k == "image"
            ctx.call("tofits", s.tofits, q)

        def read(q):
            return ctx.call("SED(filename)", kt.SED, filename=q, interpolate=bool(case["it"] and (np.diff(w) > 0).all()))
    elif k == "template":
        def write(q, a):
            t = kt.Template(filename=gen.tmpl_file(case["t"]), interpolate=False)
            if a != 1:
                t.restframe_flux = np.float32(t.restframe_flux) * np.float32(a)
                for n in gen.PROPS:
                    setattr(t, n, np.float32(getattr(t, n)) * np.float32(a))
            ctx.call("tofits", t.tofits, q)

        def read(q):
            return ctx.call("Template", kt.Template, filename=q, interpolate=case["it"])
    elif k in ("response", "dat"):
        w, r = gen.resp_arrays(case["r"])

        def write(q, a):
            if k == "dat":
                gen.write_dat(q, np.asarray(w) * a, np.asarray(r))
            else:
                ctx.call("tofits", kr.Response(wave=np.asarray(w) * a, response=np.asarray(r)).tofits, q)

        def read(q):
            R = kr.Response()
            ctx.call("fromfits", *((R.fromdat, q) if k == "dat" else (R.fromfits, q)))
            return R
    else:
        d = case["d"]
        d2 = dict(d, z=[d["z"][0], d["z"][1] * (1 + .1 * a)])

        def write(q, a):
            ctx.call("tofits", gen.make(d if a == 1 else d2).tofits, q)

        def read(q):
            return ctx.call("Kcorrect(filename)", kk.Kcorrect, filename=q, cosmo=gen.cosmo_of(d))

    def see(x):
        if k in ("sed", "image", "template"):
            x.set_redshift(case["z"])
            r = [x.wave, x.flux]
            x.set_redshift(0.)
            r += [x.wave, x.flux, x.restframe_wave, x.restframe_flux, x.nsed, x.nwave]
            if x.interp is not None:
                r.append(x.interp(x.restframe_wave[1:-1]))
            if k == "template":
                r += [getattr(x, n) for n in gen.PROPS]
        elif k in ("response", "dat"):
            r = [x.wave, x.response, x.lambda_eff, x.fwhm, x.interp(np.asarray(x.wave)[1:-1]),
                 x.project(wave=np.linspace(500., 40000., 80), flux=np.ones(80))]
        else:
            r = kresults(x, case["o"])
        return [np.array(v) for v in leaves(r)]
    return write, read, see


def happen(ev, p, other):
    """What befalls the file p."""
    if ev == "rmdir":
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if ev == "delete":
        if os.path.exists(p):
            os.unlink(p)
        return
    if ev == "rename":
        shutil.copy(other, p + ".new")
        os.rename(p + ".new", p)
        return
    n = os.path.getsize(p) if os.path.exists(p) else 0
    with open(p, "r+b" if n else "wb") as fp:
        if ev == "inplace":
            with open(other, "rb") as g:
                fp.write(g.read())
        elif ev == "zeros":
            fp.write(b"\0" * n)
        elif ev == "append":
            fp.seek(0, 2)
            fp.write(b"more " * 1000)
        else:
            fp.truncate(n // 3)


@sub("C38", "afterwards", case_, 520, 16000, rule="every case (a file changed after it was read)")
def afterwards(case, ctx):
    top = os.path.join(gen.scratch("c38"), "w%d" % os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, "d"))
    p, q = os.path.join(top, "d", "f.dat" if case["k"] == "dat" else "f.fits"), os.path.join(top, "other.dat" if case["k"] == "dat" else "other.fits")
    try:
        write, read, see = source(case, ctx, p)
        write(p, 1.)
        write(q, case["a"])
        # a reader that fails on the mapping of a file that was cut would be killed
        x = read(p)
        mapped = p in open("/proc/self/maps").read()
        fresh = read(p)
        want = see(fresh)
        del fresh
        gc.collect()
        if case["look"]:
            see(x)
        ctx.label(case["k"], *case["ev"])
        ctx.nt()
        for i, ev in enumerate(case["ev"]):
            if ev == "cut" and mapped:
                ctx.expect(p not in open("/proc/self/maps").read(), "the %s still maps its file, and a truncated file would end the process" % case["k"])
            happen(ev, p, q)
            what = "%s read from a file, after the events %s on that file" % (case["k"], case["ev"][:i + 1])
            got = ctx.call(what, see, x)
            ctx.expect(len(got) == len(want), what + ": other attributes")
            for j, (g, w) in enumerate(zip(got, want)):
                ctx.expect(g.shape == w.shape and np.array_equal(g, w, equal_nan=w.dtype.kind == "f"),
                           lambda: "%s: result %d is %s, before %s" % (what, j, repr(g)[:80], repr(w)[:80]))
        # what is read from the changed file is what that holds
        if case["ev"][-1] in ("inplace", "rename") and "append" not in case["ev"] and (
                case["ev"][-1] == "rename" or len(case["ev"]) == 1 and os.path.getsize(q) == os.path.getsize(p)):
            a, b = see(read(p)), see(read(q))
            ctx.expect(equal(a, b), "%s read again after the file was replaced: not what the file holds" % case["k"])
        # and it can still be written
        if hasattr(x, "tofits"):
            r = os.path.join(top, "again.fits")
            ctx.call("tofits", x.tofits, r)
            if case["k"] == "dat":
                import kcorrect.response as kr
                y = kr.Response()
                ctx.call("fromfits", y.fromfits, r)
            else:
                y = read(r)
            ctx.expect(equal(see(y), want), "%s written after its file changed: another object" % case["k"])
    finally:
        shutil.rmtree(top, ignore_errors=True)


OPS = ["sed", "image", "template", "response", "dat", "kcorrect", "save", "savesed", "list", "basel", "bad", "load", "badfits"]


@st.composite
def fds_(draw):
    d = draw(gen.config(nb=(1, 2), nsed=(1, 3), nz=(2, 3), big=False, zmin_neg=False))
    return dict(d=d, ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(1, 12)), min_size=1, max_size=5)),
                s=draw(gen.pts_sed(nmax=12)), t=draw(gen.templates(n=(20, 60))), r=draw(gen.pts_resp()), keep=draw(st.booleans()))


def held(top):
    """The open files (other than those that are none of ours)."""
    out = []
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue
        if t.startswith("/") and (top in t or t.endswith((".dat", ".fits", ".ori"))):
            out.append(t)
    return sorted(out)


@sub("C38", "descriptors", fds_, 260, 8000, rule="at least two files read or written")
def descriptors(case, ctx):
    """No operation keeps its files open, however many are done and kept."""
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    import kcorrect.utils as ku
    top = os.path.join(gen.scratch("c38"), "n%d" % os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    f = kr.ResponseDict()
    keep = []
    try:
        w, fl = gen.sed_arrays(case["s"])
        S = kt.SED(wave=np.float32(w), flux=np.float32(fl), interpolate=False)
        k = ctx.call("construction", gen.make, case["d"])
        P = lambda n: os.path.join(top, n)
        S.tofits(P("s.fits"))
        S.binimage = True
        S.tofits(P("i.fits"))
        k.tofits(P("k.fits"))
        gen.write_dat(P("r.dat"), *gen.resp_arrays(case["r"]))
        R = kr.Response(wave=gen.resp_arrays(case["r"])[0], response=gen.resp_arrays(case["r"])[1])
        R.tofits(P("r.fits"))
        for n in ("bad.dat", "bad.fits"):
            with open(P(n), "w") as fp:
                fp.write("nothing\n")
        with open(P("k.fits"), "rb") as a, open(P("cut.fits"), "wb") as b:
            b.write(a.read()[:5000])
        gc.collect()
        before = held(top)
        for nm, n in case["ops"]:
            for i in range(n):
                x = None
                if nm == "sed":
                    x = kt.SED(filename=P("s.fits"), interpolate=False)
                elif nm == "image":
                    x = kt.SED(filename=P("i.fits"), interpolate=False)
                elif nm == "template":
                    x = kt.Template(filename=gen.tmpl_file(case["t"]))
                elif nm == "response":
                    x = kr.Response()
                    x.fromfits(P("r.fits"))
                elif nm == "dat":
                    x = kr.Response()
                    x.fromdat(P("r.dat"))
                elif nm == "load":
                    f.load_response(P("r"), reload=True)
                elif nm == "kcorrect" and i < 3:
                    x = ctx.call("Kcorrect(filename)", kk.Kcorrect, filename=P("k.fits"))
                elif nm == "save" and i < 3:
                    k.tofits(P("k%d.fits" % i))
                elif nm == "savesed":
                    S.tofits(P("s%d.fits" % i))
                elif nm == "list":
                    x = kr.all_responses(response_dir=top, check_validity=True)
                elif nm == "basel" and i < 1:
                    x = ku.read_basel(ref.data_dir("basel", "lcbsun.ori"))
                elif nm == "bad":
                    ctx.raises("an invalid bandpass", f.load_response, P("bad"))
                elif nm == "badfits":
                    ctx.raises("a file that is not FITS", kt.SED, filename=P("bad.fits"))
                    ctx.raises("a file that was cut", kk.Kcorrect, filename=P("cut.fits"))
                if case["keep"]:
                    keep.append(x)
            gc.collect()
            now = held(top)
            more = collections.Counter(now) - collections.Counter(before)
            ctx.expect(not more, lambda: "%d times %s (%s): files left open: %s" % (
                n, nm, "results kept" if case["keep"] else "results discarded", [os.path.basename(x) for x in more][:3]))
            maps = open("/proc/self/maps").read()
            ctx.expect(top not in maps, "%d times %s: a file remains mapped" % (n, nm))
            ctx.label(nm)
        ctx.nt(sum(n for _, n in case["ops"]) > 1)
    finally:
        for x in [y for y in f if y.startswith(top) or y == "r"]:
            f.pop(x, None)
        shutil.rmtree(top, ignore_errors=True)
