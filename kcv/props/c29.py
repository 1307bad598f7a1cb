"""C29: Basel spectrum files are read field by field."""
import os

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub

NW = 1221
KEYS = ["modelno", "teff", "logg", "mh", "vturb", "xh"]


def fmt(v, how):
    if how == 0:
        return "%.4E" % v
    if how == 1:
        return "%.7e" % v
    if how == 2:
        return "%+.6E" % v
    if how == 3:
        return "%.5g" % v
    return "%.3f" % v if 1e-2 < abs(v) < 1e6 or v == 0 else "%.3e" % v


@st.composite
def case_(draw):
    models = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 3, 4, 5, 8]))):
        models.append(dict(p=[draw(st.integers(0, 999999)), draw(st.one_of(gen.lin(2000, 50000, 480), gen.lin(2000., 50000., 997))), draw(gen.lin(-1, 5.5, 65)),
                              draw(gen.lin(-5, 1, 60)), draw(st.sampled_from([0., 1., 2., 4.])), draw(gen.lin(0, 1, 50))],
                           a=draw(st.one_of(gen.lg(1e-20, 1e2, 30), gen.lg(1e-36, 1e8, 30))), r=draw(st.sampled_from([0, 0, 4, 12])),
                           s=draw(st.integers(0, 99999))))
    # a long file repeats the models with other numbers
    rep = draw(st.sampled_from([1] * 12 + [10, 40]))
    return dict(w0=draw(gen.lin(5, 100, 40)), w1=draw(gen.lin(1e5, 2e5, 10)), m=models, rep=rep,
                fmt=draw(st.integers(0, 4)), wfmt=draw(st.integers(0, 4)),
                sep=draw(st.sampled_from([" ", "  ", "\t", "   ", " \t "])), per=draw(st.sampled_from([1, 6, 7, 8, 10, 1221, 5000])),
                nl=draw(st.sampled_from(["\n", "\n", "\r\n", "\n\n"])), lead=draw(st.sampled_from(["", " ", "\n", "     "])),
                end=draw(st.sampled_from(["", "\n", "  \n\n"])), brk=draw(st.booleans()), cut=draw(st.integers(0, 3)))


@sub("C29", "generated", case_, 640, 15000, rule="two or more models (fluxes and parameters all differ)")
def generated(case, ctx):
    import kcorrect.utils as ku
    wave = np.logspace(np.log10(case["w0"]), np.log10(case["w1"]), NW)
    blocks = [[fmt(v, case["wfmt"]) for v in wave]]
    models = [dict(m, p=[m["p"][0] + j] + m["p"][1:], s=m["s"] + j) for j in range(case["rep"]) for m in case["m"]]
    for m in models:
        x = np.random.RandomState(m["s"]).uniform(0.1, 1., NW) * m["a"]
        x *= 10.**(-m["r"] * np.linspace(0, 1, NW)) if m["a"] > 1e-20 else 1.
        x[np.random.RandomState(m["s"]).randint(NW, size=case["cut"])] = 0.
        blocks.append(["%d" % m["p"][0]] + [fmt(v, 3) for v in m["p"][1:]])
        blocks.append([fmt(v, case["fmt"]) for v in x])
    if not case["brk"]:
        # one stream of words, lines broken regardless of the blocks
        blocks2 = [[w for b in blocks for w in b]]
    else:
        blocks2 = blocks
    lines = [case["sep"].join(b[i:i + case["per"]]) for b in blocks2 for i in range(0, len(b), case["per"])]
    path = os.path.join(gen.scratch("basel"), "%d.ori" % os.getpid())
    with open(path, "w", newline="") as f:
        f.write(case["lead"] + case["nl"].join(lines) + case["end"])
    n = len(models)
    ctx.nt(n > 1)
    ctx.label("%d models" % n if n < 10 else ">= 10 models", "%d per line" % case["per"])
    r = ctx.call("read_basel", ku.read_basel, filename=path)
    os.unlink(path)
    judge(ctx, r, [float(w) for w in blocks[0]], [[float(w) for w in b] for b in blocks[1::2]],
          [[float(w) for w in b] for b in blocks[2::2]])


def judge(ctx, r, wave, info, flux):
    ctx.expect(isinstance(r, (tuple, list)) and len(r) == 3, "read_basel does not return info, wave, flux")
    got, w, f = r
    ctx.close("wavelengths", w, wave, rtol=2e-7)
    ctx.close("fluxes", f, flux, rtol=2e-7, atol=1e-44)
    for i, key in enumerate(KEYS):
        ctx.expect(key in got, "info has no %r" % key)
        ctx.close(key, got[key], [x[i] for x in info], rtol=2e-7)


BUNDLED = ["lcbsun.ori", "lcbvega.ori"]


@sub("C29", "bundled", lambda: st.sampled_from(BUNDLED).map(lambda n: dict(n=n)), 2, 2, shards=1, rule="every bundled file")
def bundled(case, ctx):
    """The files used for solar and Vega magnitudes."""
    import kcorrect.utils as ku
    for n in BUNDLED:
        path = ref.data_dir("basel", n)
        info, wave, flux = ref.parse_basel(path)
        ctx.nt()
        ctx.label(n)
        judge(ctx, ctx.call("read_basel", ku.read_basel, filename=path), wave, info, flux)
