"""Check registry, Hypothesis driver, shrinking to JSON replay files, evidence.

A property is decided by one or more sub-checks.  A sub-check is a Hypothesis
strategy producing a plain JSON-able case, and a body(case, ctx) that exercises
kcorrect and calls ctx.violate / the ctx.expect* helpers.  The body uses no
randomness besides the case, so the shrunk case is a complete replay file."""
import hashlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_SECONDS = float(os.environ.get("KCV_SHRINK", 40.0))
HANG_SECONDS = 120.0       # the slowest cases take a few seconds


class Hang(BaseException):
    """Raised in a case that does not come to an end."""


def _on_alarm(signum, frame):
    raise Hang()


class Violation(Exception):
    pass


class StopRun(BaseException):
    """Leaves Hypothesis at once (shrink budget used up)."""


class Sub:
    def __init__(self, prop, name, strategy, body, quick, thorough, shards, rule):
        self.prop, self.name, self.strategy, self.body = prop, name, strategy, body
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


REGISTRY = {}


def sub(prop, name, strategy, quick, thorough, shards=8, rule=""):
    """Register body as a sub-check. strategy: callable returning a strategy.
    quick/thorough: number of generated cases in total, split over shards."""
    def deco(body):
        REGISTRY.setdefault(prop, []).append(Sub(prop, name, strategy, body, quick, thorough, shards, rule))
        return body
    return deco


class Ctx:
    """Handed to a body: classification, expectations, known findings."""

    def __init__(self, known=()):
        self.labels = set()
        self.nontrivial = False
        self.known = known
        self.known_hit = set()

    def label(self, *names):
        self.labels.update(str(n) for n in names if n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def violate(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def call(self, what, fn, *a, **k):
        """Call the code under test on a valid request: an exception is a violation."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/kcorrect/" in f.filename]
            at = " at %s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""
            raise Violation("%s raised %s: %s%s" % (what, type(e).__name__, str(e)[:300], at))

    def raises(self, what, fn, *a, exc=Exception, **k):
        """The request is invalid: anything but an exception (of type exc) is a violation."""
        try:
            r = fn(*a, **k)
        except exc:
            return
        except Exception as e:
            raise Violation("%s raised %s (%s) instead of %s" % (what, type(e).__name__, e, exc.__name__))
        raise Violation("%s was accepted and returned %s" % (what, brief(r)))

    def close(self, what, got, want, rtol=1e-5, atol=0.0, scale=None, zero_rtol=False):
        """Elementwise |got-want| <= rtol*max(|want|, scale) + atol, same shape; NaN
        and infinities only where expected."""
        import numpy as np
        try:
            g = np.asarray(got, dtype=np.float64)
        except Exception as e:
            raise Violation("%s: result is not numeric (%r: %s)" % (what, type(got), e))
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return
        mag = np.abs(w) if scale is None else np.maximum(np.abs(w), np.abs(np.asarray(scale, dtype=np.float64)))
        fin = np.isfinite(w)
        tol = atol + (0.0 if zero_rtol else rtol * np.where(fin, mag, 0.0))
        d = np.where(fin, np.abs(np.where(fin, g, 0) - np.where(fin, w, 0)), 0.0)
        bad = ~(d <= tol) | (fin & ~np.isfinite(g)) | (~fin & ~((g == w) | (np.isnan(g) & np.isnan(w))))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("%s: got %r, expected %r at index %s (%d of %d elements off)"
                            % (what, float(g[i]), float(w[i]), list(i), int(bad.sum()), bad.size))

    def within(self, what, got, want, tol):
        """Elementwise |got-want| <= tol (an array), same shape."""
        import numpy as np
        w = np.asarray(want, dtype=np.float64)
        self.close(what, got, want, rtol=1.0, atol=np.broadcast_to(np.asarray(tol, dtype=np.float64), w.shape),
                   zero_rtol=True)

    def same(self, what, got, want):
        """Exactly equal arrays (shape and values; NaN equals NaN)."""
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if g.dtype.kind in "fc" or w.dtype.kind in "fc":
            bad = ~((g == w) | (np.isnan(g.astype(float)) & np.isnan(w.astype(float))))
        else:
            bad = g != w
        if np.any(bad):
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("%s: got %r, expected %r at index %s" % (what, g[i], w[i], list(i)))

    def known_finding(self, key):
        """True (and recorded) if the committed known-findings file lists key."""
        if key in self.known:
            self.known_hit.add(key)
            return True
        return False


def brief(r):
    s = repr(r)
    return s if len(s) < 200 else s[:200] + "..."


def canon(case):
    return json.dumps(case, sort_keys=True)


def shorten(x, n=12):
    """A case written out for the evidence file, long lists abbreviated."""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > n:
            return [shorten(v, n) for v in x[:n]] + ["... %d in all" % len(x)]
        return [shorten(v, n) for v in x]
    if isinstance(x, float):
        return float("%.6g" % x) if x == x and abs(x) != float("inf") else str(x)
    return x


def load_known(prop):
    """Known findings (not fixed ones) of one property: {key: text}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("|")
                kv = dict(w.split("=", 1) for w in head.split())
                if kv["property"] == prop:
                    out[kv["key"]] = text.strip()
    return out


def _seed_int(seed, *parts):
    h = hashlib.sha256(("%d/" % seed + "/".join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def guarded(s, case, ctx):
    """The body; an exception that comes out of kcorrect's own code, on requests
    that are all valid on the unchanged tree, is a violation like a wrong value."""
    try:
        s.body(case, ctx)
    except (Exception, SystemExit) as e:
        if isinstance(e, (Violation, MemoryError)) or type(e).__module__.startswith("hypothesis"):
            raise
        src = os.path.realpath(boot.REPO_SRC) + "/"
        fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(src)]
        if not fr:
            if isinstance(e, (TypeError, IndexError, KeyError, AttributeError, ValueError)):
                # never on the unchanged tree: what kcorrect returned is not of the documented form
                w = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation("a result is not of the documented form: %s: %s (%s:%d)" % (
                    type(e).__name__, str(e)[:300], os.path.basename(w.filename), w.lineno))
            raise
        raise Violation("%s: %s at %s:%d" % (type(e).__name__, str(e)[:300],
                                             os.path.basename(fr[-1].filename), fr[-1].lineno))


def run_shard(s, seed, n, shard, deadline):
    """Runs one sub-check shard in this process and returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    known = load_known(s.prop)
    res = dict(sub=s.name, shard=shard, evals=0, distinct=[], labels={}, samples=[],
               violation=None, error=None, known=[], truncated=False)
    seen = set()
    st = dict(first=None, best=None, best_msg=None)
    khit = set()

    def run(case):
        now = time.time()
        if st["first"] is None:
            if now > deadline:
                res["truncated"] = True
                raise StopRun()
        elif now > st["first"] + SHRINK_SECONDS:
            raise StopRun()
        ctx = Ctx(known)
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            try:
                guarded(s, case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            if st["first"] is None:
                st["first"] = 0.                # no shrinking
                st["best"], st["best_msg"] = canon(case), "no answer within %d s" % HANG_SECONDS
            raise StopRun()
        except Violation as v:
            js = canon(case)
            if st["first"] is None:
                st["first"] = time.time()
            if st["best"] is None or (len(js), js) < (len(st["best"]), st["best"]):
                st["best"], st["best_msg"] = js, str(v)
            raise v from None
        finally:
            khit.update(ctx.known_hit)
            if st["first"] is None:
                res["evals"] += 1
                for lb in ctx.labels:
                    res["labels"][lb] = res["labels"].get(lb, 0) + 1
                if ctx.nontrivial:
                    h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res["samples"]) < 2:
                            res["samples"].append(shorten(case))

    test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.large_base_example,
                                           HealthCheck.data_too_large])(given(s.strategy())(run))
    test = hypothesis.seed(_seed_int(seed, s.prop, s.name, shard))(test)
    try:
        test()
    except StopRun:
        pass
    except Violation:
        pass
    except BaseException as e:
        if st["best"] is None or isinstance(e, (KeyboardInterrupt, SystemExit)):
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if st["best"] is not None:
        res["violation"] = dict(case=json.loads(st["best"]), msg=st["best_msg"])
        res["error"] = None
    res["distinct"] = sorted(seen)
    res["known"] = sorted(khit)
    return res


def _worker(s, seed, n, shard, deadline, outpath):
    scratch = boot.SCRATCH
    wd = os.path.join(scratch, "cwd", "%s-%d" % (s.name, shard))
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    errf = os.open(outpath + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(errf, 2)
    try:
        res = run_shard(s, seed, n, shard, deadline)
    except BaseException as e:
        res = dict(sub=s.name, shard=shard, evals=0, distinct=[], labels={}, samples=[], violation=None,
                   error="".join(traceback.format_exception(e))[-4000:], known=[], truncated=False)
    with open(outpath + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(outpath + ".tmp", outpath)


def run_property(prop, tier, seed, only=None, jobs=None, scale=1.0):
    """Runs every sub-check of prop, writes evidence, prints the verdict; exit code."""
    t0 = time.time()
    scratch = boot.boot()
    from . import props
    props.load(prop)
    subs = [s for s in REGISTRY[prop] if only is None or s.name in only]
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    budget = 600.0 if tier == "quick" else 6 * 3600.0
    deadline = t0 + budget
    tasks = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = max(1, min(s.shards if tier == "quick" else max(s.shards, 8), total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            tasks.append((s, n, i))
    # long shards first
    outdir = tempfile.mkdtemp(prefix="out-", dir=scratch)
    running, results, queue = {}, [], list(enumerate(tasks))
    failed_subs = set()
    while queue or running:
        while queue and len(running) < jobs:
            k, (s, n, i) = queue.pop(0)
            if s.name in failed_subs:
                continue
            out = os.path.join(outdir, "%d.json" % k)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(s, seed, n, i, deadline, out)
                except BaseException:
                    code = 9
                finally:
                    os._exit(code)
            running[pid] = (k, s, i, out)
        if not running:
            break
        pid, status = os.wait()
        if pid not in running:
            continue
        k, s, i, out = running.pop(pid)
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            err = ""
            if os.path.exists(out + ".err"):
                err = open(out + ".err").read()[-2000:]
            r = dict(sub=s.name, shard=i, evals=0, distinct=[], labels={}, samples=[], violation=None,
                     error="worker ended with status %s: %s" % (status, err), known=[], truncated=False)
        r["order"] = k
        results.append(r)
        if r["violation"]:
            failed_subs.add(s.name)
    results.sort(key=lambda r: r["order"])
    return report(prop, tier, seed, subs, results, time.time() - t0)


def report(prop, tier, seed, subs, results, wall):
    known = load_known(prop)
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r["error"]]
    hit = sorted(set(k for r in results for k in r["known"]))
    per = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        labels = {}
        for r in rs:
            for a, b in r["labels"].items():
                labels[a] = labels.get(a, 0) + b
        per[s.name] = dict(evaluations=sum(r["evals"] for r in rs),
                           distinct_nontrivial=len(set(h for r in rs for h in r["distinct"])),
                           rule=s.rule, classes=dict(sorted(labels.items())))
        if any(r["truncated"] for r in rs):
            per[s.name]["stopped_by_time_budget"] = True
    samples = []
    for s in subs:
        got = [x for r in results if r["sub"] == s.name for x in r["samples"]][:1]
        samples += [dict(sub_check=s.name, case=x) for x in got]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(p["evaluations"] for p in per.values()),
                  distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per.values()),
                  rule="Hypothesis-generated cases, per sub-check: " +
                       "; ".join("%s: %s" % (k, v["rule"]) for k, v in per.items()),
                  samples=samples, sub_checks=per, known_findings_hit=hit),
              assumptions=["numpy, scipy, astropy and the bundled data files are trusted",
                           "single-process use of kcorrect on this platform"],
              wall_s=round(wall, 2), violations=len(set(r["sub"] for r in viol)))
    evidence = os.environ.get("KCV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evidence, exist_ok=True)
    path = os.path.join(evidence, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    done = set()
    for r in viol:
        if r["sub"] in done:
            continue
        done.add(r["sub"])
        rdir = os.path.join(evidence, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (prop, r["sub"]))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, sub=r["sub"], seed=seed, message=r["violation"]["msg"],
                           case=r["violation"]["case"]), f, indent=1)
        print("  %s/%s: %s" % (prop, r["sub"], r["violation"]["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for r in errs[:1]:
        print("ERROR in %s/%s shard %d:\n%s" % (prop, r["sub"], r["shard"], r["error"]), file=sys.stderr)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d violated sub-checks, %d errors, %.1f s"
          % (prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
             len(done), len(errs), wall))
    if viol:
        return 1
    if errs:
        return 3
    return 0


def replay(path):
    boot.boot()
    from . import props
    d = json.load(open(path))
    props.load(d["property"])
    s = [x for x in REGISTRY[d["property"]] if x.name == d["sub"]][0]
    os.chdir(os.path.join(boot.SCRATCH, "cwd"))
    ctx = Ctx(load_known(d["property"]))
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(int(HANG_SECONDS))
    try:
        guarded(s, d["case"], ctx)
    except (Violation, Hang) as v:
        print("  %s/%s: %s" % (d["property"], d["sub"], v))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("replay of %s/%s passes" % (d["property"], d["sub"]))
    return 0
