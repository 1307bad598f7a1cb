"""C04: the response registry, against a model of names, files and objects."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from kcv import gen, ref
from kcv.core import sub

BUNDLED = ["sdss_u0", "sdss_g0", "bessell_V", "twomass_J", "galex_FUV"]
CURVES = [dict(k="pts", w=[4000. + 50 * i for i in range(6)], r=[0., .5, 1., .8, .3, 0.]),
          dict(k="pts", w=[5000., 5100., 5200., 5300., 5500.], r=[0., 1., 1., 0.5, 0.], p=[4, 2, 0, 1, 3]),
          dict(k="g", c=7000., s=300., n=15, e=2.5, a=1.),
          dict(k="pts", w=[15000. + 100 * i for i in range(8)], r=[.1, .5, 1., .8, .3, .9, .2, .1], a=30.)]
BAD = ["missing", "empty", "text", "nopass", "nolambda", "short", "words", "binary"]
# files of a directory listing besides f0.dat .. f3.dat
ODD = ["a.b.dat", "F0.dat", "x.dat.bak", "ydat", "up.DAT", "notes.txt", "dir.dat/", "ln.dat", "dangling.dat"]
ODD_GOOD = {"a.b.dat": "a.b", "F0.dat": "F0", "ln.dat": "ln"}

names = st.integers(0, 3)


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 14))):
        o = draw(st.sampled_from(["load", "load", "load", "reload", "write", "write", "alter", "alter", "bad", "reloadbad", "reloadbad", "assign", "handle", "bundled",
                                  "rebundled", "list", "valid", "delfile", "delkey", "new"]))
        e = dict(o=o)
        if o in ("load", "reload", "write", "alter", "bad", "reloadbad", "assign", "delfile", "delkey"):
            e["n"] = draw(names)
        if o in ("write", "assign"):
            e["c"] = draw(st.integers(0, len(CURVES) - 1))
        if o in ("bad", "reloadbad"):
            e["b"] = draw(st.sampled_from(BAD))
        if o in ("bundled", "rebundled", "new"):
            e["b"] = draw(st.sampled_from(BUNDLED + (["no_such_response", "sdss_q9"] if o != "rebundled" else [])))
        out.append(e)
    return dict(ops=out, odd=draw(st.lists(st.sampled_from(ODD), unique=True, max_size=4)),
                init=draw(st.lists(names, unique=True, max_size=3)), cwd=draw(st.booleans()))


def put(path, kind, w=None, r=None):
    if os.path.exists(path):
        os.unlink(path)
    if kind == "good":
        gen.write_dat(path, w, r)
    elif kind != "missing":
        body = dict(empty="", text="this is not a table\n", nopass="| lambda | other |\n|   4000 |    1. |\n",
                    nolambda="| wave | pass |\n| 4000 |   1. |\n| 4100 |   1. |\n",
                    short="| lambda | pass |\n|   4000 |   1. |\n|   4100 |   1. |\n",
                    words="| lambda | pass |\n" + "".join("|   4%d00 |  abc |\n" % i for i in range(5)),
                    binary="\x01\x02|\x00\x03\n")[kind]
        with open(path, "w") as fp:
            fp.write(body)


@sub("C04", "history", ops, 1100, 40000, rule="at least one load succeeded and at least one load failed or re-read a file")
def history(case, ctx):
    import kcorrect.response as kr
    d = os.path.join(gen.scratch("c04"), "d%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = kr.ResponseDict()
    full = [os.path.join(d, "f%d" % i) for i in range(4)]
    bases = ["f%d" % i for i in range(4)] + list(ODD_GOOD.values())
    saved = dict(f)
    for n in BUNDLED + ["no_such_response", "sdss_q9"] + full + bases:
        f.pop(n, None)
    here = os.getcwd()
    if case["cwd"]:
        # files of the same names in the current directory are of no concern
        os.makedirs(os.path.join(d, "cwd"))
        for i, n in enumerate(BUNDLED + ["no_such_response", "sdss_q9"]):
            put(os.path.join(d, "cwd", n + ".dat"), "good", *gen.resp_arrays(CURVES[i % 4]))
        os.chdir(os.path.join(d, "cwd"))
    try:
        run(case, ctx, kr, d, full, bases)
    finally:
        os.chdir(here)
        dict.clear(f)
        f.update({k: v for k, v in saved.items() if k not in full and k not in bases})
        shutil.rmtree(d, ignore_errors=True)


def run(case, ctx, kr, d, full, bases):
    f = kr.ResponseDict()
    files = {}                                  # index -> curve (w, r) or bad kind
    objs = {}                                   # registry name -> (object, Curve)
    others = {k: v for k, v in f.items()}
    for odd in case["odd"]:
        p = os.path.join(d, odd)
        if odd.endswith("/"):
            os.makedirs(p)
        elif odd == "dangling.dat":
            os.symlink(os.path.join(d, "nowhere.dat"), p)
        elif odd == "ln.dat":
            # a link to a file under another name
            put(os.path.join(d, "target"), "good", *gen.resp_arrays(CURVES[0]))
            os.symlink(os.path.join(d, "target"), p)
        elif odd in ODD_GOOD:
            put(p, "good", *gen.resp_arrays(CURVES[0]))
        else:
            put(p, "text")
    for i in case["init"]:
        put(full[i] + ".dat", "good", *gen.resp_arrays(CURVES[i]))
        files[i] = CURVES[i]
    nload = nfail = nre = 0
    for step, e in enumerate(case["ops"]):
        o, what = e["o"], "step %d (%s)" % (step, e)
        h = kr.ResponseDict() if step % 2 else f
        if o == "write":
            put(full[e["n"]] + ".dat", "good", *gen.resp_arrays(CURVES[e["c"]]))
            files[e["n"]] = CURVES[e["c"]]
        elif o == "alter":
            # other numbers, but nothing that shows in a directory listing
            c = files.get(e["n"])
            if not isinstance(c, dict) or c["k"] != "pts":
                c = CURVES[e["n"] % 2]
                put(full[e["n"]] + ".dat", "good", *gen.resp_arrays(c))
                h.load_response(full[e["n"]], reload=True)
            c = dict(c, r=c["r"][1:] + c["r"][:1])
            old = os.stat(full[e["n"]] + ".dat")
            put(full[e["n"]] + ".dat.new", "good", *gen.resp_arrays(c))
            with open(full[e["n"]] + ".dat.new") as a, open(full[e["n"]] + ".dat", "r+") as b:
                b.write(a.read())
                b.truncate()
            os.unlink(full[e["n"]] + ".dat.new")
            os.utime(full[e["n"]] + ".dat", ns=(old.st_atime_ns, old.st_mtime_ns))
            files[e["n"]] = c
            ctx.call(what, h.load_response, full[e["n"]], reload=True)
            objs[full[e["n"]]] = (f[full[e["n"]]], ref.Curve(*gen.resp_arrays(c)))
            nload += 1
            nre += 1
        elif o == "bad":
            put(full[e["n"]] + ".dat", e["b"])
            files[e["n"]] = e["b"]
            if e["b"] == "missing":
                files.pop(e["n"])
        elif o == "reloadbad":
            put(full[e["n"]] + ".dat", e["b"])
            files[e["n"]] = e["b"]
            if e["b"] == "missing":
                files.pop(e["n"])
            nfail += 1
            ctx.raises(what, h.load_response, full[e["n"]], reload=True)
        elif o == "delfile":
            put(full[e["n"]] + ".dat", "missing")
            files.pop(e["n"], None)
        elif o == "delkey":
            h.pop(full[e["n"]], None)
            objs.pop(full[e["n"]], None)
        elif o == "handle":
            g = kr.ResponseDict()
            ctx.expect(g is f or (list(g.keys()) == list(f.keys()) and all(g[k] is f[k] for k in f)),
                       what + ": a new handle shows other contents")
        elif o == "assign":
            c = CURVES[e["c"]]
            R = kr.Response(wave=gen.resp_arrays(c)[0], response=gen.resp_arrays(c)[1])
            h[full[e["n"]]] = R
            objs[full[e["n"]]] = (R, gen.curve(c) if c["k"] == "pts" else ref.Curve(*gen.resp_arrays(c)))
        elif o in ("load", "reload"):
            n, fl = full[e["n"]], files.get(e["n"])
            good = isinstance(fl, dict)
            if n in objs and o == "load":
                ctx.call(what, h.load_response, n)
            elif good:
                if o == "reload":
                    ctx.call(what, h.load_response, n, reload=True)
                else:
                    ctx.call(what, h.load_response, n)
                ctx.expect(n in f, what + ": not in the registry after loading")
                nre += n in objs
                nload += 1
                objs[n] = (f[n], ref.Curve(*gen.resp_arrays(fl)))
            else:
                nfail += 1
                if o == "reload":
                    ctx.raises(what, h.load_response, n, reload=True)
                else:
                    ctx.raises(what, h.load_response, n)
        elif o in ("bundled", "rebundled", "new"):
            n = e["b"]
            if n in BUNDLED:
                a = dict(reload=True) if o == "rebundled" else {}
                ctx.call(what, h.load_response, response=n, **a)
                ctx.expect(n in f, what + ": not in the registry after loading")
                nload += 1
                if o == "rebundled" or n not in objs:
                    objs[n] = (f[n], gen.curve_of_file(n))
            else:
                nfail += 1
                ctx.raises(what, h.load_response, n)
        elif o in ("list", "valid"):
            have = {"f%d" % i: fl for i, fl in files.items()}
            have.update({ODD_GOOD[x]: CURVES[0] for x in case["odd"] if x in ODD_GOOD})
            if o == "list":
                got = ctx.call(what, kr.all_responses, response_dir=d)
                want = set(have)
            else:
                got = ctx.call(what, kr.all_responses, response_dir=d, check_validity=True)
                want = {k for k, fl in have.items() if isinstance(fl, dict)}
                for k in want:
                    ctx.expect(k in f, "%s: %r is listed as valid but not in the registry" % (what, k))
                    if k not in objs:
                        objs[k] = (f[k], ref.Curve(*gen.resp_arrays(have[k])))
            ctx.expect(sorted(got) == sorted(want), "%s: returned %s, expected %s" % (what, sorted(got), sorted(want)))
        # the registry is exactly what the model says
        for k, (R, c) in objs.items():
            ctx.expect(k in f, "%s: %r vanished from the registry" % (what, k))
            ctx.expect(f[k] is R, "%s: %r is another object than before" % (what, k))
            ctx.close("%s: wave of %r" % (what, k), f[k].wave, c.w, rtol=1e-9)
            ctx.expect(int(f[k].nwave) == len(c.w), "%s: nwave of %r is %r" % (what, k, f[k].nwave))
            ctx.close("%s: response of %r" % (what, k), f[k].response, c.r, rtol=1e-6, atol=1e-9)
            ctx.close("%s: interp of %r" % (what, k), f[k].interp(c.w[1:-1]), c.r[1:-1], rtol=1e-6, atol=1e-6 * c.r.max())
            ctx.close("%s: lambda_eff of %r" % (what, k), f[k].lambda_eff, c.lambda_eff(), rtol=1e-6)
        for k in f:
            ctx.expect(k in objs or others.get(k) is f[k], "%s: unexpected entry %r in the registry" % (what, k))
        for k in others:
            ctx.expect(k in f and f[k] is others[k], "%s: entry %r was changed" % (what, k))
    ctx.label("loads" if nload else "no load", "failed loads" if nfail else "no failed load",
              "re-reads" if nre else "no re-read")
    ctx.nt(nload > 0 and (nfail > 0 or nre > 0))


@sub("C04", "bundled", lambda: st.sampled_from(gen.bundled()).map(lambda n: dict(n=n)), 250, 600,
     rule="a bundled bandpass")
def bundled(case, ctx):
    import kcorrect.response as kr
    f = kr.ResponseDict()
    n, c = case["n"], gen.curve_of_file(case["n"])
    old = f.pop(n, None)
    ctx.call("load_response(%s)" % n, f.load_response, n)
    R = f[n]
    ctx.close(n + ": wave", R.wave, c.w, rtol=1e-12)
    ctx.close(n + ": response", R.response, c.r, rtol=1e-12, atol=1e-300)
    ctx.call("load_response(%s) again" % n, kr.ResponseDict().load_response, n)
    ctx.expect(kr.ResponseDict()[n] is R, n + ": loading it again replaced it")
    if old is not None:
        f[n] = old
    ctx.nt()


@sub("C04", "listing", lambda: st.sampled_from([False, True]).map(lambda v: dict(v=v)), 2, 2, shards=2,
     rule="listing of the bundled directory")
def listing(case, ctx):
    import kcorrect.response as kr
    d = ref.data_dir("responses")
    want = sorted(x[:-4] for x in os.listdir(d) if x.endswith(".dat") and os.path.isfile(os.path.join(d, x)))
    if case["v"]:
        want = sorted(set(want) & set(gen.bundled()))
    got = ctx.call("all_responses", kr.all_responses, check_validity=case["v"])
    ctx.expect(sorted(got) == want, lambda: "all_responses(check_validity=%s): missing %s, extra %s" % (
        case["v"], sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
    if case["v"]:
        f = kr.ResponseDict()
        for n in want[::7]:
            ctx.expect(n in f, "%r is listed as valid but not in the registry" % n)
            ctx.close(n + ": wave", f[n].wave, gen.curve_of_file(n).w, rtol=1e-12)
    ctx.nt()
