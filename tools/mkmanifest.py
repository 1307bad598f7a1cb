#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

PY = "/opt/venv/bin/python check.py"
MODEL = "an independent float64 reference model of the documented definitions (kcv/ref.py)"
T = {
    "C01": ("property-based testing against a reference model and metamorphic laws", "projections of generated and bundled curves and spectra vs " + MODEL + ", plus linearity, AB source, scaling and sampling laws"),
    "C02": ("property-based testing against reference definitions", "descriptors of generated and of every bundled bandpass vs their definitions; scaling and ordering laws"),
    "C03": ("property-based testing against a reference model", "solar and Vega zero points vs own projection of the bundled star models; None exactly outside their range"),
    "C04": ("model-based testing of operation histories with injected faults", "load/reload/fail/replace/list histories over generated files vs a dict model; object identity and failure atomicity"),
    "C05": ("model-based testing of operation histories", "redshift / interpolation / save histories of SEDs vs a pure model of rest frame plus redshift"),
    "C06": ("round-trip property-based testing", "write/read of SEDs, templates and bandpasses in both layouts, chains, overwriting"),
    "C07": ("property-based testing against a reference model", "tabulated and reconstructed fluxes vs " + MODEL),
    "C08": ("property-based testing with an optimality oracle", "residual of the fit vs a brute-force nonnegative optimum over all supports; zero-weight, scaling and out-of-range relations"),
    "C09": ("round-trip property-based testing", "fluxes synthesised from mixtures are recovered by fit and reconstruction"),
    "C10": ("metamorphic property-based testing", "array calls vs single calls, permutations, subsets, containers and dtypes"),
    "C11": ("stateful property-based testing", "operation histories over several fitters sharing templates; byte comparison of arguments, earlier results and shared state; repetition on the same and on fresh objects"),
    "C12": ("property-based testing against a reference model", "K-corrections vs " + MODEL + " and vs the object's own model fluxes"),
    "C13": ("metamorphic property-based testing", "exact analytic identity for band_shift = z"),
    "C14": ("property-based testing against a reference model", "magnitudes and -9999 masks vs " + MODEL + "; option and band independence"),
    "C15": ("property-based testing against a reference model", "reconstructed magnitudes vs " + MODEL + "; agreement with the K-corrected ones for model fluxes"),
    "C16": ("property-based testing against a reference model", "limits vs " + MODEL),
    "C17": ("metamorphic property-based testing", "explicit distances vs cosmologies vs scaling laws in all methods"),
    "C18": ("property-based testing against a reference model", "derived quantities vs weighted sums; scaling laws"),
    "C19": ("property-based testing with optimality and statistical oracles", "sample shapes, per-sample optimality, unperturbed bands, normality tests at 7 sigma with fixed seeds"),
    "C20": ("differential property-based testing", "Monte Carlo methods vs single-set methods per sample; one known finding"),
    "C21": ("round-trip property-based testing, also across processes", "save/load chains and reload in a fresh interpreter; attributes and results"),
    "C22": ("property-based testing against the stated formula", "per-band factors, signal to noise, inverse offsets"),
    "C23": ("round-trip property-based testing", "asinh encode/decode and error propagation"),
    "C24": ("differential property-based testing", "survey classes vs the general class on reference-calibrated inputs"),
    "C25": ("property-based testing against an elementwise oracle", "monotonic, idempotent, sign-independent, per object and band"),
    "C26": ("property-based testing against the stated formula", "wavelength, flux and weight conversion, registry side effects"),
    "C27": ("differential property-based testing", "low-memory vs interpolating mode and vs the reference model, 1 to 3001 templates"),
    "C28": ("fuzzing of request shapes with a must-reject oracle", "mutated shapes, ranges, names; object usable afterwards"),
    "C29": ("round-trip property-based testing", "generated Basel files in many layouts, and the bundled ones"),
    "C30": ("property-based testing against the stated definition", "curves and limits found in the matplotlib axes vs the spectrum's own samples"),
    "C31": ("differential property-based testing over copies and thread schedules", "copies, pickles (also in a fresh interpreter) and concurrent calls vs the original, sequential results; independence of copies"),
    "C32": ("stateful property-based testing of write histories", "sequences of writes of generated objects over existing files of several kinds; bytes and HDUs before and after"),
    "C33": ("metamorphic property-based testing", "sequences of reorderings, additions, rescalings and refinements of a configuration vs the original configuration, results mapped back"),
    "C34": ("metamorphic property-based testing", "all results for fluxes times a power of two vs the scaling laws of each quantity"),
    "C35": ("stateful property-based testing of ambient state", "sequences of calls; snapshots of the process state before and after each; the same sequence in another state of the process"),
    "C36": ("fault-injection property-based testing", "files cut at generated bytes, without generated HDUs or columns, of another kind; writes limited to a generated number of bytes; loaded values vs those of the whole file"),
    "C37": ("fault-injection property-based testing", "KeyboardInterrupt raised at a generated line of kcorrect's code, and failures of bandpasses, grids and cosmologies at their n-th use; results before, after and repeated"),
    "C38": ("stateful property-based testing with faults on files", "generated files of every kind are changed, cut, replaced or removed after reading, and the objects read compared with themselves before; descriptors and mappings of the process counted around sequences of reads and writes"),
}
base = "Exploration: holds on every generated case of the run (counts in the evidence). Trusts numpy, scipy, astropy and Hypothesis. "
out = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="check.py CNN [--tier quick|thorough] [--seed N]; check.py replay FILE re-runs a shrunk failure. "
                 "Hypothesis comes from /opt/veriftools, kcorrect from /repo/src (pure Python, nothing to build).")
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
for i in ids:
    t, note = T[i]
    out["checks"].append(dict(property=i, quick_cmd="%s %s --tier quick" % (PY, i),
                              thorough_cmd="%s %s --tier thorough" % (PY, i), technique=t, level="exploration",
                              level_note=base + "Decides by " + note + "."))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
