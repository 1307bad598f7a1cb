"""C32: writing without clobber never destroys what is on disk."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from kcv import gen
from kcv.core import sub

KINDS = ["sed", "image", "template", "response"]


@st.composite
def item(draw):
    k = draw(st.sampled_from(KINDS))
    e = dict(k=k)
    if k in ("sed", "image"):
        e["s"] = draw(gen.pts_sed(nmax=12))
    elif k == "template":
        e["t"] = draw(gen.templates(n=(20, 40)))
    else:
        e["r"] = draw(gen.pts_resp())
    return e


@st.composite
def case_(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append(dict(i=draw(item()), c=draw(st.sampled_from([False, False, False, True, None])), p=draw(st.integers(0, 1)),
                        bad=draw(st.integers(0, 9)) == 0))
    return dict(ops=ops, pre=draw(st.lists(st.sampled_from(["none", "text", "empty", "other"]), min_size=2, max_size=2)))


def make(ctx, e):
    """(object, reader, {attribute: value})."""
    import kcorrect.response as kr
    import kcorrect.template as kt
    if e["k"] == "template":
        T = ctx.call("Template", kt.Template, filename=gen.tmpl_file(e["t"]))
        return T, lambda p: kt.Template(filename=p), ("restframe_wave", "restframe_flux") + gen.PROPS
    if e["k"] == "response":
        w, r = gen.resp_arrays(e["r"])
        R = ctx.call("Response", kr.Response, wave=np.asarray(w), response=np.asarray(r))

        def read(p):
            q = kr.Response()
            q.fromfits(p)
            return q
        return R, read, ("wave", "response")
    w, f = gen.sed_arrays(e["s"])
    S = ctx.call("SED", kt.SED, wave=w.astype(np.float32), flux=f.astype(np.float32), interpolate=False)
    S.binimage = e["k"] == "image"
    return S, lambda p: kt.SED(filename=p, interpolate=False), ("restframe_wave", "restframe_flux")


def content(p):
    """Raw bytes, and every HDU's data if it is FITS."""
    import astropy.io.fits as fits
    if not os.path.exists(p):
        return None
    raw = open(p, "rb").read()
    hd = None
    if raw[:6] == b"SIMPLE":
        with fits.open(p, memmap=False) as h:
            hd = [(x.name, None if x.data is None else np.array(x.data).tobytes()) for x in h]
    return raw, hd


@sub("C32", "clobber", case_, 520, 16000, rule="a write with clobber off onto an existing file")
def clobber(case, ctx):
    d = os.path.join(gen.scratch("c32"), "d%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        run(case, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case, ctx, d):
    import astropy.io.fits as fits
    paths = [os.path.join(d, "f%d.fits" % i) for i in (0, 1)]
    for p, pre in zip(paths, case["pre"]):
        if pre == "other":
            fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.arange(5.), name="MINE"), fits.ImageHDU(np.arange(7), name="FLUX")]).writeto(p)
        elif pre != "none":
            with open(p, "w") as fp:
                fp.write("my notes\n" if pre == "text" else "")
    for j, op in enumerate(case["ops"]):
        X, read, names = make(ctx, op["i"])
        p = paths[op["p"]]
        want = {n: np.array(getattr(X, n), float) for n in names}
        what = "step %d: %s written" % (j, op["i"]["k"])
        if op["bad"]:
            ctx.raises(what + " into a directory that does not exist", X.tofits, os.path.join(d, "no", "such.fits"))
            ctx.label("no directory")
            continue
        old = content(p)
        other = content(paths[1 - op["p"]])
        kw = {} if op["c"] is None else dict(clobber=op["c"])
        if op["c"] is False and old is not None:
            what += " with clobber off onto an existing file"
            ctx.nt()
            ctx.label("clobber off, existing " + ("FITS" if old[1] is not None else "text"))
            try:
                X.tofits(p, **kw)
                done = True
            except Exception:
                done = False
            new = content(p)
            ctx.expect(new is not None, what + ": the file is gone")
            if not done:
                ctx.expect(new[0] == old[0], what + ": the write failed but changed the file")
            elif old[1] is None:
                ctx.expect(old[0] in new[0], what + ": the contents of the file were replaced")
            else:
                ctx.expect(new[1] is not None and new[1][:len(old[1])] == old[1], what + ": HDUs of the file were replaced")
        else:
            ctx.call(what, X.tofits, p, **kw)
            ctx.label("clobber off, new file" if op["c"] is False else "clobber on")
            fresh = os.path.join(d, "fresh.fits")
            ctx.call(what, X.tofits, fresh)
            ctx.expect(content(p)[1] == content(fresh)[1], what + " over a file: other HDUs than in a new file")
            os.unlink(fresh)
            Y = ctx.call("reading it", read, p)
            for n in names:
                ctx.same("%s and read: %s" % (what, n), np.asarray(getattr(Y, n), float).reshape(want[n].shape), want[n])
        ctx.expect(content(paths[1 - op["p"]]) == other, what + ": another file changed")
        for n in names:
            ctx.same("%s: %s of the object written" % (what, n), np.asarray(getattr(X, n), float), want[n])
    left = sorted(os.listdir(d))
    ctx.expect(all(x in ("f0.fits", "f1.fits") for x in left), "files left behind: %s" % left)
