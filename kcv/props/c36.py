"""C36: incomplete files are rejected, and failed writes are reported."""
import os
import resource
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub
from kcv.gen import col

from .c10 import pos
from .c32 import item, make

READERS = ["sed", "template", "kcorrect", "response"]


@st.composite
def thing(draw):
    if draw(st.integers(0, 2)) == 0:
        d = draw(gen.config(nb=(1, 3), nsed=(1, 3), nz=(2, 4), big=False, real=False, zmin_neg=False))
        return dict(k="kcorrect", d=d, o=draw(gen.objects(d, n=(1, 2))))
    return draw(item())


@st.composite
def case_(draw):
    return dict(x=draw(thing()), dmg=draw(st.lists(damage(), min_size=1, max_size=6)))


@st.composite
def damage(draw):
    k = draw(st.sampled_from(["cut", "cut", "mid", "mid", "block", "tail", "drop", "every drop", "column", "every column", "reader", "order", "extra", "missing"]))
    return dict(k=k, u=draw(gen.lin(0, 1)), i=draw(st.integers(0, 15)),
                t=draw(st.sampled_from([0, 1, 3, 4, 5, 6, 7])))


def build(ctx, x):
    """(object, reader, state of an object that was read)."""
    if x["k"] == "kcorrect":
        import kcorrect.kcorrect as kk
        d, o = x["d"], x["o"]
        k = ctx.call("construction", gen.make, d)

        def state(q):
            T = q.templates
            Z, F, IV, C = (np.float32(col(o, y)) for y in ("z", "f", "iv", "c"))
            s = {"template " + y: getattr(T, y) for y in ("restframe_wave", "restframe_flux") + gen.PROPS}
            s.update(responses=[str(y) for y in q.responses], responses_out=[str(y) for y in q.responses_out],
                     responses_map=[str(y) for y in q.responses_map], imap=q.imap, redshifts=q.redshifts, nredshift=q.nredshift,
                     redshift_range=q.redshift_range, abcorrect=q.abcorrect)
            s["reconstruct"] = q.reconstruct(redshift=Z, coeffs=C)
            s["fit_coeffs"] = q.fit_coeffs(redshift=Z, maggies=F, ivar=pos(IV))
            s["kcorrect"] = q.kcorrect(redshift=Z, coeffs=C)
            s["absmag"] = q.absmag(redshift=Z, maggies=F, ivar=pos(IV), coeffs=C)
            s.update(q.derived(redshift=Z, coeffs=C))
            return {y: np.array(v) for y, v in s.items()}
        return k, lambda p: kk.Kcorrect(filename=p, cosmo=k.cosmo), state
    X, read, names = make(ctx, x)

    def state(q):
        s = {n: np.array(getattr(q, n)) for n in names}
        if x["k"] != "response":
            s.update(wave=np.array(q.wave), flux=np.array(q.flux), nsed=np.array(q.nsed), nwave=np.array(q.nwave),
                     redshift=np.array(q.redshift))
        else:
            s.update(lambda_eff=np.array(q.lambda_eff), fwhm=np.array(q.fwhm))
        return s
    return X, read, state


def same(a, b):
    return a.keys() == b.keys() and all(a[n].shape == b[n].shape and (
        np.array_equal(a[n], b[n]) if a[n].dtype.kind not in "fc" else np.array_equal(a[n].astype(float), b[n].astype(float), equal_nan=True))
        for n in a)


def spoil(p, q, dm, turn):
    """Write to q the file p, damaged. Returns (a description, "any" if it may
    still load as the whole, "same" if it has to, "no" if it cannot)."""
    import astropy.io.fits as fits
    k = dm["k"]
    if k in ("cut", "mid", "block", "tail"):
        # also files with their HDUs in another order
        late, at = "", -1
        if turn:
            with fits.open(p, memmap=False) as hd:
                rest = list(hd[1:])
                j = turn % max(len(rest), 1)
                fits.HDUList([hd[0]] + rest[j:] + rest[:j]).writeto(q, overwrite=True)
            with fits.open(q, memmap=False) as hd:
                if "M50" in hd:
                    at = hd["M50"].fileinfo()["datLoc"]
            late = "(its HDUs in another order) "
        raw = open(q if turn else p, "rb").read()
        if k == "cut":
            n = int(dm["u"] * (len(raw) - 1))
        elif k == "block":
            n = 2880 * int(dm["u"] * (len(raw) // 2880 - 1))
        elif k == "mid":
            # in the data of the last HDU, or of any
            with fits.open(q if turn else p, memmap=False) as hd:
                h = hd[-1 if dm["i"] % 2 else dm["i"] // 2 % len(hd)]
                n = h.fileinfo()["datLoc"] + int(dm["u"] * max(h.size - 1, 0))
        else:
            n = max(0, len(raw) - 1 - int(dm["u"]**3 * 6000))
        with open(q, "wb") as fp:
            fp.write(raw[:n])
        # (cut before the end of its header, the M50 HDU is not seen at all)
        return late + "with only the first %d of %d bytes" % (n, len(raw)), "any, m50" if n <= at else "any"
    with fits.open(p, memmap=False) as hd:
        hd = fits.HDUList([x.copy() for x in hd])
        names = [x.name for x in hd]
        if k in ("drop", "missing"):
            i = dm["i"] % (len(hd) - 1) + 1
            nm = names[i]
            h = fits.HDUList([x for j, x in enumerate(hd) if j != i])
            h.writeto(q, overwrite=True)
            return "without its HDU %s" % nm, "m50" if nm == "M50" else "no"
        if k == "column":
            t = [i for i, x in enumerate(hd) if isinstance(x, fits.BinTableHDU)]
            if not t:
                return None, None
            i = t[dm["i"] % len(t)]
            c = hd[i].columns
            j = dm["i"] // len(t) % len(c)
            nm = "%s of %s" % (c[j].name, names[i])
            hd[i] = fits.BinTableHDU.from_columns([c[m] for m in range(len(c)) if m != j], name=names[i]) if len(c) > 1 else \
                fits.BinTableHDU.from_columns([fits.Column(name="other", format="E", array=np.zeros(3))], name=names[i])
            hd.writeto(q, overwrite=True)
            return "without the column %s" % nm, "no"
        if k == "order":
            j = dm["i"] % max(len(hd) - 1, 1)
            rest = list(hd[1:])
            fits.HDUList([hd[0]] + rest[j:] + rest[:j]).writeto(q, overwrite=True)
            return "with its HDUs in another order", "same"
        # k == "extra"
        hd.append(fits.ImageHDU(np.arange(7.), name="NOTES"))
        hd.append(fits.BinTableHDU.from_columns([fits.Column(name="wave", format="E", array=np.zeros(3))], name="LOG"))
        hd.writeto(q, overwrite=True)
        return "with HDUs of the user's appended", "same"


# what each file may also be read as
ALSO = dict(sed=["sed"], image=["sed"], template=["sed", "template"], response=["response"], kcorrect=["sed", "template", "kcorrect"])


@sub("C36", "damaged", case_, 560, 20000, rule="a file with something missing was read")
def damaged(case, ctx):
    import kcorrect.kcorrect as kk
    import kcorrect.response as kr
    import kcorrect.template as kt
    d = os.path.join(gen.scratch("c36"), "d%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    kind = case["x"]["k"]
    try:
        X, read, state = build(ctx, case["x"])
        p = os.path.join(d, "whole.fits")
        ctx.call("tofits", X.tofits, p)
        whole = state(ctx.call("reading the whole file", read, p))
        dmg = []
        for dm in case["dmg"]:
            # every HDU or column in turn
            dmg += [dict(dm, k=dm["k"][6:], i=i) for i in range(16 if kind == "kcorrect" else 9)] if dm["k"].startswith("every ") else [dm]
        for j, dm in enumerate(dmg):
            q = os.path.join(d, "damaged%d.fits" % j)
            if dm["k"] == "reader":
                # the whole file, read as another kind of object
                as_ = READERS[dm["i"] % 4]
                if as_ in ALSO[kind]:
                    continue
                ctx.label("read as another kind")
                ctx.nt()
                f = dict(sed=lambda: kt.SED(filename=p), template=lambda: kt.Template(filename=p),
                         kcorrect=lambda: kk.Kcorrect(filename=p), response=lambda: kr.Response(filename=p))[as_]
                if as_ == "response":
                    f = lambda: kr.Response().fromfits(p)   # noqa
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ctx.raises("reading a %s file as a %s" % (kind, as_), f)
                continue
            if dm["k"] == "missing":
                ctx.raises("reading a file that does not exist", read, os.path.join(d, "absent.fits"))
            what, may = spoil(p, q, dm, 0 if kind == "response" else dm["t"])
            if what is None:
                continue
            if kind == "response" and dm["k"] == "order":
                continue
            ctx.label(dm["k"], what.replace("without", kind + " without") if "without" in what else None)
            ctx.nt(may != "same")
            what = "%s file %s" % (kind, what)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    Y = read(q)
                except Exception as e:
                    ctx.expect(may != "same", lambda: "%s raises %s: %s" % (what, type(e).__name__, str(e)[:150]))
                    ctx.label("rejected")
                    continue
                if may != "no":
                    got = ctx.call("using what was read from a " + what, state, Y)
            ctx.expect(may != "no", lambda: "%s is accepted" % what)
            if may == "m50" or may == "any, m50" and not np.any(got.get("m50", got.get("template m50"))):
                # old files have no M50: taken as zero
                want = {n: v for n, v in whole.items() if "50" not in n}
                for n in got:
                    if "50" in n and "m1" not in n:
                        ctx.expect(n not in ("m50", "template m50") or not np.any(got[n]), what + ": m50 is not 0")
                got = {n: v for n, v in got.items() if "50" not in n}
                ctx.expect(same(got, want), lambda: what + " is read with other values of " + differ(got, want))
                continue
            ctx.label("read whole")
            ctx.expect(same(got, whole), lambda: what + " is read with other values of " + differ(got, whole))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def differ(a, b):
    return ", ".join(n for n in sorted(set(a) | set(b)) if n not in a or n not in b or not same({n: a[n]}, {n: b[n]}))


@st.composite
def full_(draw):
    return dict(x=draw(thing()), u=[draw(st.sampled_from([0., .001, .02])) if draw(st.integers(0, 3)) == 0 else draw(gen.lin(0, .999))
                                     for _ in range(draw(st.integers(1, 4)))], old=draw(st.booleans()))


@sub("C36", "full", full_, 480, 16000, rule="a write was cut short")
def full(case, ctx):
    """Writes onto a file system that takes only so many bytes (a limit on the size
    of files)."""
    d = os.path.join(gen.scratch("c36"), "f%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        X, read, state = build(ctx, case["x"])
        p, q = os.path.join(d, "whole.fits"), os.path.join(d, "cut.fits")
        ctx.call("tofits", X.tofits, p)
        size = os.path.getsize(p)
        whole = state(ctx.call("reading the whole file", read, p))
        for u in case["u"]:
            if case["old"]:
                with open(q, "wb") as fp:
                    fp.write(b"old")
            n = int(u * size)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            err = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                try:
                    X.tofits(q)
                except Exception as e:
                    err = e
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            ctx.nt()
            what = "writing a %s of %d bytes where only %d fit" % (case["x"]["k"], size, n)
            ctx.expect(err is not None, what + " reports no error")
            ctx.label(type(err).__name__)
            if os.path.exists(q):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        got = state(read(q))
                    except Exception:
                        got = None
                if got is not None:
                    ctx.label("whole all the same")
                    ctx.expect(same(got, whole), lambda: what + ": what was written is read with other values of " + differ(got, whole))
            if case["x"]["k"] == "kcorrect":
                ctx.expect(same(state(X), whole), lambda: what + ": changed the object: " + differ(state(X), whole))
        # with room again
        ctx.call("writing after a failed write", X.tofits, q)
        got = state(ctx.call("reading it", read, q))
        ctx.expect(same(got, whole), lambda: "written after a failed write: other values of " + differ(got, whole))
    finally:
        shutil.rmtree(d, ignore_errors=True)
