#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
R, F, K, T, U = ("src/kcorrect/response.py", "src/kcorrect/fitter.py", "src/kcorrect/kcorrect.py",
                 "src/kcorrect/template.py", "src/kcorrect/utils.py")
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


p("C01", "Synthetic photometry is the AB-normalised photon-weighted mean flux",
  "Projecting any spectrum (or stack of spectra, given as an SED object at any redshift or as plain wave/flux arrays) onto any bandpass returns, for each spectrum in order, its photon-weighted integral through the bandpass divided by that of the 3631 Jy AB source, to single-precision accuracy (both curves interpolated cubically, the integrals over the wavelengths of the bandpass by the trapezoid rule at the samples of either). It follows that an AB source gives 1 in every band, the result is linear in flux, and it depends neither on the normalisation of the response curve nor on the order in which the samples of the spectrum or of the curve are listed. A spectrum whose wavelength range does not reach the bandpass gives 0; outside its own range a spectrum counts as zero flux, but however coarsely it is sampled inside its range it is interpolated, not dropped.",
  ["inputs"], "all bandpass curves (bundled and user-defined, any grid of at least 4 points), all spectra of at least 4 distinct wavelengths in any order, 1 or many spectra, any redshift, full / partial / no overlap",
  "tests project one AB source through one band and one template set through five bands (asserting only > 0)",
  [R, U, T], [("Response.project: union grid, cubic interpolation, trapezoid", R + ":project"), ("AB source", U + ":sed_ab")],
  observe=["Response.project return value"])

p("C02", "Bandpass descriptors match their definitions",
  "For every bandpass the curve is exposed sorted by wavelength with each sample kept with its own wavelength; the effective wavelength is exp of the response/lambda weighted mean of ln(lambda) over the curve's own grid; the low and high half-maximum wavelengths are where the interpolated curve first rises through and last falls through half of its peak sample (or the end of the grid if it never does), and the FWHM is their difference. They do not depend on the order in which samples are given or on the overall normalisation of the curve, and scale with the wavelengths.",
  ["inputs"], "all bandpass curves of at least 4 distinct wavelengths: multi-peaked, asymmetric, truncated, unsorted input; and all bundled bandpasses",
  "tests only check the number of samples of one Gaussian curve",
  [R], [("sorting", R + ":Response.__init__, fromdat, fromfits"), ("effective wavelength", R + ":set_lambda_eff"), ("half-maximum search", R + ":set_fwhm_limits")],
  observe=["Response.wave, response, nwave, lambda_eff, fwhm, fwhm_low, fwhm_high, interp"])

p("C03", "Solar and Vega zero points are projections of the bundled spectra",
  "For every bandpass, solar_magnitude is the AB magnitude of the bundled solar model spectrum as seen at 10 pc through that bandpass, and vega2ab is the AB magnitude of the bundled Vega model spectrum at Vega's distance (so m_AB = m_Vega + vega2ab), each within 1e-4 mag wherever single-precision model fluxes determine it. Each is None exactly when the model spectrum has no positive flux through the bandpass, which includes every bandpass outside the model's range; neither depends on the normalisation of the curve, on which other bandpasses were set up before or what was done with them or with their solar and Vega spectra, or on what a bandpass object held before it was read again from another file.",
  ["inputs", "histories"], "all bundled and generated bandpasses from the far UV to beyond the model range, set up, read again and used in any order",
  "tests check two bandpasses against stored numbers",
  [R, U], [("set_solar_magnitude", R), ("set_vega2ab", R), ("read_basel", U)],
  observe=["Response.solar_magnitude", "Response.vega2ab"])

p("C04", "The response registry is faithful, shared and failure-atomic",
  "Loading a bandpass by name (bundled, or by absolute path) gives the lambda/pass columns of that file sorted by wavelength; every handle on the registry sees the same objects, loading an already loaded name keeps the existing object, and reload re-reads the file. A load that fails raises and leaves the registry as it was, so a bad name fails again next time and a good entry survives. Listing a directory returns exactly the base names of its .dat files, and with validity checking exactly those of them in that directory that can be loaded, which are then available in the registry.",
  ["inputs", "histories"], "all sequences of load / failing load / reload / list / assign operations over bundled names, files in any directory (valid, malformed, missing), and any interleaving of registry handles",
  "tests load one bandpass once and check the singleton once",
  [R], [("singleton metaclass", R + ":ResponseDictSingleton"), ("load_response", R), ("fromdat", R), ("all_responses", R)],
  state=[("ResponseDict", "process-wide name to Response map", R)],
  observe=["ResponseDict contents after every operation", "all_responses return value"])

p("C05", "Redshifting an SED is absolute, reversible and conserves energy",
  "After any sequence of operations on an SED, its wave is the rest-frame grid times (1+z) and its flux the rest-frame flux divided by (1+z), for the last redshift set and independent of earlier ones; the bolometric integral is conserved, the rest-frame arrays never change, and setting redshift 0 restores the original spectrum. Whenever the SED carries an interpolator, it interpolates exactly the current wave and flux and is zero outside them.",
  ["inputs", "histories"], "all spectra (1 or many) and all sequences of set_redshift / set_interp / projection / write, with and without interpolation",
  "the test sets one redshift once on one spectrum",
  [T], [("set_redshift from restframe arrays", T + ":set_redshift"), ("set_interp", T)],
  state=[("restframe_wave/restframe_flux", "immutable rest-frame spectrum", T), ("wave/flux/redshift/interp", "current observed-frame view", T)],
  observe=["SED.wave, flux, redshift, restframe_*, interp, nsed, nwave"])

p("C06", "SEDs, templates and bandpasses survive a FITS round trip",
  "Writing an SED, a Template or a Response to FITS and reading it back gives the same spectrum (rest frame, whatever redshift the object was at), the same number of spectra and samples, the same per-template stellar-population numbers (integrated SFH, remaining mass, metallicity, mass formed in the last 50, 300 and 1000 Myr) and the same bandpass curve and descriptors, in both the table and the WAVE/FLUX image layouts. A template file lacking the 50 Myr extension reads as zeros there. Of a table of several rows the first one is read; other columns do not matter. Undefined samples (NaN, infinity) stay so. Values round-trip exactly at the stored precision (single precision for SED tables).",
  ["inputs", "histories"], "all SEDs / templates / responses, layouts, redshift states, overwriting existing files, repeated round trips, files written by others in the documented layout",
  "tests round-trip one constant single SED and one bandpass",
  [T, R], [("SED.tofits/fromfits", T), ("Template.tofits/__init__", T), ("Response.tofits/fromfits", R)],
  observe=["objects read back", "the FITS files as read by astropy"])

p("C07", "Model fluxes equal the projection of the redshifted templates",
  "The fluxes reconstructed from coefficients at a redshift of the object's grid equal the coefficient-weighted sum of the projections of the templates redshifted to it, for each band in the order of the bands; between grid redshifts they are the linear interpolation of the two neighbours, and with a band shift b they are those at (1+z)(1+b)-1 divided by 1+b. This holds for input and output bands over the whole requested redshift range including both ends, is linear in the coefficients, and building the tables leaves the templates at redshift 0.",
  ["inputs", "configurations"], "all template sets, band lists (any order, repeats), redshift ranges and grid sizes, redshifts inside the range, coefficient vectors, band shifts that stay inside the range",
  "tests only check that reconstructed fluxes are nonnegative and have the right shape",
  [F, K], [("_calc_Amatrix", F), ("_interpolate_Amatrix", F), ("_reconstruct", F), ("reconstruct_out / AmatrixOut", K)],
  state=[("Amatrix, AmatrixOut", "tabulated band fluxes per unit coefficient over redshift", F + ", " + K)],
  observe=["reconstruct, reconstruct_out, Amatrix, AmatrixOut, redshifts"])

p("C08", "The fit is the nonnegative weighted least-squares optimum",
  "For every object inside the redshift range, the fitted coefficients are finite and nonnegative and no other nonnegative combination of the templates has a smaller chi-squared, sum of ivar*(maggies-model)^2, beyond numerical precision. Bands with zero inverse variance have no influence whatever their flux (even if it is not a number), and scaling all fluxes by s and inverse variances by 1/s^2 scales the coefficients by s. Outside the redshift range the coefficients are all zero. When the solver runs out of iterations the fit (of the data or of a Monte Carlo sample) is repeated with more of them and still returns the optimum; if it never converges the caller gets an exception, not numbers.",
  ["inputs", "configurations", "fault_sequences"], "all template sets, bands, redshifts, fluxes (including negative and zero), inverse variances (including zeros and a wide dynamic range); any pattern of solver calls running out of iterations",
  "tests fit all-ones fluxes and check only sign and shape",
  [F], [("_fit_coeffs with scipy nnls", F)],
  observe=["fit_coeffs return value"])

p("C09", "Fluxes synthesised from the templates are recovered by the fit",
  "If fluxes are synthesised by projecting a nonnegative mixture of the redshifted templates through the bands, then fitting them and reconstructing returns the same fluxes in all bands with nonzero weight (and in every band, with the same coefficients, when the weighted bands determine the mixture), independent of the relative weights. The K-corrections and absolute magnitudes computed from the fit are then those of the mixture itself.",
  ["inputs", "configurations"], "all template sets and nonnegative mixtures, bands, in-range redshifts, positive weights over several decades",
  "tests never compare reconstructed fluxes with the input fluxes",
  [F, K, R], [("project -> Amatrix -> nnls -> reconstruct", F)],
  observe=["fit_coeffs, reconstruct, kcorrect, absmag composed"])

p("C10", "Array calls equal object-by-object calls",
  "Fitting, reconstruction, K-correction, absolute magnitudes (with every optional output), and derived quantities for an array of objects give, for each object, the same values as a scalar call for that object alone, whatever the other objects are and in whatever order; a length-1 array gives the scalar result with a leading axis of 1. Lists, tuples, single- and double-precision, big-endian and non-contiguous arrays holding the same values are interchangeable.",
  ["inputs", "configurations"], "all batches of 1 to several objects mixing good, zero-weight, negative-flux, all-zero-coefficient and out-of-range members, all container types, with distances, band shifts and mapped output bands",
  "tests call scalar and 2-object forms but never compare them",
  [F, K], [("_process_inputs", F), ("fit_coeffs loop and n==1 path", F), ("array branches of _reconstruct, kcorrect, absmag, derived", K)],
  observe=["return values and shapes of the public methods"])

p("C11", "Calls do not modify their inputs or the state later calls depend on",
  "No computation modifies the arrays, lists or template arrays passed to it, and the result of a call does not depend on which other calls were made before on the same or on other fitter objects sharing the same templates, bandpasses or default settings: repeating a call gives the same answer. Values returned earlier do not change later.",
  ["histories", "inputs"], "all sequences of fit / reconstruct / kcorrect / absmag / derived / Monte Carlo / calibration / projection / construction / save calls over several objects sharing templates and registry, with read-only or writable inputs of every accepted type",
  "tests never look at an input after a call and never repeat a call",
  [F, K, U, R, T], [("_process_inputs casting", F), ("to_ab", K), ("templates reset after _calc_Amatrix", F), ("error_floor copies", U)],
  observe=["inputs before and after", "results of repeated calls", "templates' state"])

p("C12", "K-corrections are the magnitude difference between observed and rest-frame bands",
  "For each output band Q mapped to input band R, the K-correction is -2.5 log10 of the model flux through R at the object's redshift over the model flux through Q at rest (band-shifted if asked), using the same coefficients. It is independent of the overall scale of the coefficients, 0 for a band onto itself at redshift 0, and 0 for objects whose coefficients are all zero.",
  ["inputs", "configurations"], "all output/map band lists (subset, repeat, permutation, more or fewer than inputs), redshifts in range with 0 in range, coefficients, band shifts",
  "tests check only shapes",
  [K], [("kcorrect", K + ":kcorrect"), ("imap", K + ":__init__")],
  observe=["kcorrect return value"])

p("C13", "Band-shifting to the object's own redshift gives -2.5 log10(1+z)",
  "For output bands equal to the input bands, the K-correction of any object at redshift z to bands shifted by z is -2.5 log10(1+z), whatever the spectrum, the templates and the band. For an AB-like or any other model the rest-frame shifted-band flux is that of the unshifted band observed at redshift b, times 1/(1+b).",
  ["inputs", "configurations"], "all template sets, bands, nonzero coefficient vectors and redshifts in range",
  "no test uses band_shift",
  [K, F], [("band_shift in _reconstruct", F)],
  observe=["kcorrect(band_shift=z), reconstruct(band_shift)"])

p("C14", "Absolute magnitudes obey m = M + DM + K with -9999 for undefined bands",
  "For each output band, the absolute magnitude is -2.5 log10(flux of its mapped input band) minus the distance modulus minus the K-correction when that flux and its inverse variance are both positive, and exactly -9999 otherwise (also when either is NaN), bands being independent of each other. The K-corrections returned on request are those used, the requested extra outputs come in the order absolute magnitude, reconstructed, limit, K-correction, and requesting them does not change the others.",
  ["inputs", "configurations"], "all fluxes (positive, zero, negative), inverse variances (positive, zero, negative), redshifts, band maps, band shifts, combinations of optional outputs",
  "tests check only shapes of all-ones inputs",
  [K], [("absmag", K + ":absmag")],
  observe=["absmag return values"])

p("C15", "Reconstructed absolute magnitudes are those of the model SED",
  "The reconstructed absolute magnitude in each output band is -2.5 log10 of the model's rest-frame flux through that (band-shifted) output band minus the distance modulus, for any output bands, map and band shift, and does not depend on the observed fluxes or their errors; it is -9999 when the model flux is not positive. When the observed flux in the mapped band equals the model flux, it equals the K-corrected absolute magnitude.",
  ["inputs", "configurations"], "all coefficients (including all zero), output bands and maps, band shifts, redshifts, distances",
  "tests check only shapes",
  [K], [("absmag reconstruct branch", K + ":absmag")],
  observe=["absmag(reconstruct=True)"])

p("C16", "Absolute magnitude limits are the one-sigma flux through the same K-correction",
  "The absolute magnitude limit in each output band is the K-corrected absolute magnitude of a flux equal to the one-sigma error of the mapped input band, regardless of the measured flux and its sign. It is -9999 exactly where the inverse variance is not positive or the object's coefficients are all zero.",
  ["inputs", "configurations"], "all fluxes, inverse variances (positive, zero, negative), coefficients (including all zero), maps, band shifts, distances",
  "tests check only shapes",
  [K], [("absmag limit branch", K + ":absmag")],
  observe=["absmag(limit=True)"])

p("C17", "Distances come from the cosmology unless given, consistently everywhere",
  "When no distance is given, absolute magnitudes, masses and mass-to-light ratios use the distance modulus of the object's cosmology at the redshift (Planck18 by default, the given one otherwise, also for an object read from a file or whose cosmology is replaced later); giving that cosmology's luminosity distance in Mpc explicitly gives the same results. An explicit distance d changes absolute magnitudes by -5 log10 of the distance ratio, scales masses by its square, leaves mass-to-light ratios, birth rates, metallicity and K-corrections unchanged, and works at redshift 0.",
  ["inputs", "configurations"], "all redshifts, distances, cosmologies, scalar and array objects, in absmag, derived and their Monte Carlo forms",
  "no test passes a distance or a cosmology",
  [K], [("dm / dfactor computation", K + ":absmag, derived")],
  observe=["absmag, derived, absmag_mc, derived_mc with and without distance"])

p("C18", "Derived quantities are the coefficient-weighted template properties",
  "Remaining mass and integrated star formation are the coefficient-weighted sums of the template values times (d/10 pc)^2; metallicity is the remaining-mass-weighted template metallicity; b50, b300 and b1000 are the mass formed in the last 50, 300 and 1000 Myr over the integrated star formation; the mass-to-light ratio in each output band is the remaining mass over the model's rest-frame luminosity in solar units of that (shifted) band, or per maggy at 10 pc where the band has no solar magnitude. All are finite and zero for objects with all-zero coefficients; masses scale with the coefficients while the ratios do not change.",
  ["inputs", "configurations"], "all coefficients (including zeros), template sets (with and without the 50 Myr extension), output bands of any number, with and without solar magnitudes, band shifts, redshifts, distances",
  "tests check only sizes for one template set",
  [K, T], [("derived", K + ":derived"), ("template numbers", T + ":Template")],
  observe=["derived return dict"])

p("C19", "Monte Carlo fits perturb by the stated errors and refit each sample",
  "Asking for mc > 0 samples returns the same best-fit coefficients as without, plus mc perturbed flux sets and coefficient sets whose shapes follow the inputs (no object axis for scalars, an object axis for arrays of any length including 1, and outside the redshift range zero coefficients). Each sample's coefficients are the nonnegative fit to that sample's fluxes with the same weights, and the sample fluxes are the (AB) fluxes plus independent Gaussian noise of variance 1/ivar, with bands of zero ivar left unperturbed. Runs are reproducible from the numpy random seed.",
  ["inputs", "configurations"], "all objects and batches, mc >= 1, ivar patterns with zeros, in- and out-of-range redshifts, random seeds",
  "no test uses mc",
  [F], [("_fit_coeffs mc loop", F), ("fit_coeffs mc assembly", F)],
  observe=["fit_coeffs(mc=n) return values"])

p("C20", "Monte Carlo magnitudes and derived quantities equal the per-sample results",
  "For every Monte Carlo sample, the absolute magnitudes, optional reconstructed magnitudes and K-corrections, and derived quantities returned for the whole set equal those of the single-set methods applied to that sample's fluxes and coefficients, with the sample as last axis and the output bands as the band axis, for scalar and array objects, any band map, band shift and distance. Fed with the samples of a fit whose errors are negligible, they reproduce the unperturbed absolute magnitudes.",
  ["inputs", "configurations"], "all sample sets, numbers of samples, output band lists of any length, optional outputs, distances, abcorrect on and off",
  "no test calls absmag_mc or derived_mc",
  [K], [("absmag_mc", K), ("derived_mc", K)],
  observe=["absmag_mc, derived_mc return values"])

p("C21", "A saved K-correction object computes the same after reloading",
  "Saving a K-correction object to FITS and reading it back, in the same or in a fresh process, gives an object with the same bands, output bands, map, redshift range and grid, AB-correction flag and templates, and with the same fits, reconstructions, K-corrections, absolute magnitudes and derived quantities for every input. Saving overwrites an existing file, and saving the reloaded object again changes nothing.",
  ["inputs", "histories", "configurations"], "all configurations (fractional and negative redshift bounds, any band lists, image- or table-layout templates), chains of save/load, fresh processes",
  "no test saves or loads a K-correction object",
  [K, T], [("tofits", K), ("fromfits", K)],
  observe=["attributes and results before and after"])

p("C22", "SDSS-to-AB correction applies the stated per-band offsets exactly",
  "Correcting SDSS fluxes multiplies each of the five bands by 10^(-0.4*offset), by default with magnitude offsets -0.036, +0.012, +0.010, +0.028, +0.040 for u,g,r,i,z, and divides its inverse variance by the square of the same factor, so the signal to noise is unchanged; zero weights stay zero and negative fluxes keep their sign. This holds for one object, arrays of any leading shape, and user-given offsets; applying opposite offsets undoes it.",
  ["inputs"], "all flux and inverse variance arrays with last axis 5, 1 to 3 dimensions, any 5 offsets, with and without inverse variances",
  "only exercised inside a shape test",
  [U], [("sdss_ab_correct", U)],
  observe=["sdss_ab_correct return values"])

p("C23", "Asinh magnitudes convert to the fluxes and errors they encode",
  "Converting SDSS asinh magnitudes returns in each band the flux whose asinh magnitude, with that band's softening parameter (1.4, 0.9, 1.2, 1.8, 7.4 e-10), is the input (so encoding it back returns the input, including negative fluxes and the zero-flux magnitude), multiplied by 10^(0.4*extinction). The inverse variance is that of the returned flux implied by first-order propagation of the magnitude error, so the signal to noise does not depend on the extinction; without magnitude errors only fluxes are returned.",
  ["inputs"], "all magnitudes from bright to well beyond the zero-flux magnitude, errors, extinctions, 1 object or arrays",
  "only exercised inside a shape test with all-ones inputs",
  [U], [("sdss_asinh_to_maggies", U)],
  observe=["sdss_asinh_to_maggies return values"])

p("C24", "Survey classes equal the general class fed with AB-calibrated inputs",
  "With AB correction on, the SDSS and GALEX-SDSS-2MASS classes give for raw survey fluxes exactly what the general class gives for the AB-calibrated fluxes and inverse variances (all five SDSS bands, and only those, corrected), in fits and in absolute magnitudes; with it off they use the inputs as they are. Fitting asinh magnitudes equals converting them, with errors and extinction, and fitting the result; the calibration can also be called on fluxes alone.",
  ["inputs", "configurations"], "all fluxes, inverse variances, magnitudes, extinctions, scalar and array, both settings of abcorrect, default and custom output bands",
  "tests check only shapes for all-ones inputs",
  [K, U], [("KcorrectSDSS.to_ab, fit_coeffs_asinh", K), ("KcorrectGST.to_ab", K), ("_process_inputs", F)],
  observe=["fit_coeffs, fit_coeffs_asinh, absmag, to_ab"])

p("C25", "The error floor raises fractional errors to the floor and changes nothing else",
  "For each band with positive inverse variance, the returned inverse variance is the input where the fractional error is at least that band's floor, and otherwise the one that makes the fractional error equal to the floor; it never increases, and bands with zero or negative inverse variance are returned unchanged. It depends only on the magnitude of the flux, acts on each object and band independently, is idempotent, and is the same for whole numbers given as integers.",
  ["inputs"], "all fluxes (positive, negative, zero), inverse variances, floors (including 0), 1 or many objects, lists and arrays of any real type",
  "no test calls it",
  [U], [("error_floor", U)],
  observe=["error_floor return value"])

p("C26", "Flux densities from maggies are placed at the effective wavelength",
  "Converting maggies returns each band's effective wavelength, the flux density maggies times the AB flux density at that wavelength, and, when inverse variances are given, the correspondingly scaled inverse variance (signal to noise unchanged), in the order of the bands and for one or many objects. Bands not loaded before are loaded on demand, and nothing else in the registry changes.",
  ["inputs", "histories"], "all fluxes, inverse variances, band lists with repeats, 1 or many objects, loaded and not yet loaded bands",
  "no test calls it",
  [U], [("maggies2flambda", U), ("sed_ab", U)],
  observe=["maggies2flambda return values", "ResponseDict"])

p("C27", "The low-memory mode gives the same results as the interpolating mode",
  "Fitters built with templates that keep no interpolator give the same tabulated band fluxes, fits and K-corrections as with interpolated templates, to single precision, for any number of templates including thousands, and never create or keep an interpolator on the templates.",
  ["inputs", "configurations"], "template counts from 1 to several thousand (on and around multiples of 1000), band lists, redshift grids",
  "one test compares one 5-template set; a second compares an object with itself",
  [F, R, T], [("chunked projection", F + ":_calc_Amatrix"), ("wave/flux path of project", R)],
  observe=["Amatrix, fit_coeffs, kcorrect for both modes", "templates.interp"])

p("C28", "Malformed requests are rejected instead of giving numbers",
  "Redshifts, fluxes, inverse variances, coefficients and distances given to the fitting, reconstruction and magnitude methods whose shapes do not match each other or the object's bands and templates, missing redshifts, redshifts of more than one dimension, output maps naming unknown bands or of the wrong length, unknown bandpass names, spectra whose flux does not match the wavelength grid, and calibration arrays without 5 bands raise an exception rather than returning values. Evaluating a model outside the tabulated redshift range raises ValueError, also for one member of an array and via the band shift; a rejected call leaves the object usable.",
  ["inputs", "histories"], "all mismatched shapes obtained by dropping, adding or transposing axes or elements of valid requests, all out-of-range redshifts, on all public entry points that document such inputs",
  "no test makes an invalid call",
  [F, K, R, U], [("_process_inputs", F), ("_reconstruct range check", F), ("__init__ map checks", K), ("project argument checks", R), ("shape checks", U)],
  observe=["exceptions of the public methods"])

p("C29", "Basel spectrum files are read field by field",
  "Reading a Basel-format file returns its 1221 wavelengths, one row of 1221 fluxes per model in file order, and each model's number, effective temperature, gravity, metallicity, turbulence and hydrogen fraction, whatever the number of models and the whitespace layout.",
  ["inputs"], "all files with 1221 wavelengths and any number of models, any line breaking and number formatting; the bundled files",
  "only read indirectly for two bundled single-model files",
  [U], [("read_basel", U)],
  observe=["read_basel return values"])

p("C30", "Plotting an SED draws exactly the spectra asked for",
  "Plotting an SED draws into the current axes one curve per requested spectrum, in the order requested (all of them by default), of log10(wavelength) against log10(wavelength times flux) at its current redshift, through exactly its samples with positive flux. With wavelength limits the x axis spans exactly those limits and the y axis all positive values of the requested spectra inside them. Curves drawn before stay, and the SED does not change.",
  ["inputs", "histories"], "all spectra (including zero and negative samples), redshifts, index arguments (none, one, several, repeated) and wavelength limits that contain a positive sample, with other curves or axes in the figure",
  "no test plots",
  [T], [("SED.plot", T)],
  observe=["lines and limits of the matplotlib axes", "attributes of the SED"])

p("C31", "Objects can be copied, pickled and shared between threads",
  "A K-correction object, fitter, template set, spectrum or bandpass that is deep-copied, or pickled and restored (in the same or in a new process, as multiprocessing does), has the same state and gives the same results as the original, and what is done to the copy later does not affect the original. Fits, reconstructions, magnitudes, derived quantities and projections made from several threads at the same time on shared objects give the same results as when they are made one after another.",
  ["inputs", "histories", "schedules"], "all objects and configurations, pickle protocols, used before or not; thread counts, switch intervals and mixtures of calls",
  "no test copies or pickles an object or uses a thread",
  [F, K, R, T], [("object state is plain attributes", F + ", " + K), ("derived loads bandpasses on demand", K), ("SED.interp", T)],
  observe=["results of all methods on original and copy", "attributes"])

p("C32", "Writing with clobber off never destroys an existing file",
  "Writing an SED, template set or bandpass with clobber off onto an existing file either raises and leaves the file as it was, or keeps all of its contents and adds to them; onto a new path it writes the object as usual. With clobber on, the default, the file is replaced and holds exactly the object, and a write that cannot be done raises. Writing touches no other file, leaves none behind, and does not change the object written.",
  ["inputs", "histories"], "all kinds of objects and layouts, existing files of any content (FITS or not), sequences of writes to several files with clobber on, off or not given",
  "no test passes clobber",
  [T, R], [("SED.tofits, Template.tofits", T), ("Response.tofits", R)],
  observe=["the files on disk", "exceptions", "objects read back"])

p("C33", "Results do not depend on how the configuration is listed",
  "What is computed for a band, template or object depends only on that band, template and object. Listing the input bands in another order with their data, or the output bands, or taking only some of the output bands, only reorders or selects the results; adding an output band, or an input band that has zero inverse variance, changes no other result. Listing the templates in another order permutes the coefficients; multiplying a template and its masses by a factor divides its coefficient by it; a template listed twice shares its coefficient between the copies; fluxes, K-corrections, magnitudes and derived quantities stay the same. Widening the redshift range by whole steps of its grid, the layout of the template file and the interpolation mode do not matter either.",
  ["inputs", "configurations"], "all configurations (bands, templates, maps, redshift grids, template layouts), sequences of the changes named in the statement, objects of any fluxes, weights, coefficients, redshifts in range, with and without band shift",
  "no test compares two configurations",
  [F, K], [("_calc_Amatrix", F), ("_fit_coeffs", F), ("_set_imap, kcorrect, absmag, derived", K)],
  observe=["fit_coeffs, reconstruct, reconstruct_out, kcorrect, absmag, derived on both configurations"])

p("C34", "Results scale with the brightness of the source",
  "Multiplying all fluxes of an object by a factor and dividing their inverse variances by its square multiplies the fitted coefficients, model fluxes, masses, star formation and Monte Carlo samples (same random state) by the factor, shifts absolute magnitudes and limits by -2.5 log10 of it, leaves K-corrections, mass-to-light ratios and other ratios as they are, and leaves the same magnitudes undefined. Error floors, AB corrections and flux densities scale in the same way.",
  ["inputs"], "all configurations, objects, weights and factors (from 1e-9 to 1e8) for which the fluxes stay in the range of single precision",
  "tests use one brightness",
  [F, K, U], [("_fit_coeffs", F), ("absmag, derived", K), ("error_floor, sdss_ab_correct, maggies2flambda", U)],
  observe=["fit_coeffs, reconstruct, kcorrect, absmag, derived, utilities at both brightnesses"])

p("C35", "Calls neither change nor depend on the state of the process",
  "Apart from the objects involved, the registry of bandpasses and the file written, no call changes anything its caller can see: the random state (except a Monte Carlo fit, which advances it), numpy's error handling and print options, warning filters, working directory, environment, matplotlib settings and figures, default cosmology, files. Except for a Monte Carlo fit, which follows the random state, no result depends on any of these.",
  ["inputs", "histories"], "sequences of all public calls, valid and rejected, performed in two different states of the process",
  "no test looks",
  [F, K, R, T, U], [("fit_coeffs, absmag, derived", F + ", " + K), ("all_responses", R), ("tofits", T)],
  observe=["state of numpy, random, os, warnings, matplotlib, astropy before and after", "results in both states"])

p("C36", "Incomplete files are rejected, failed writes are reported",
  "Reading a saved K-correction object, template set, spectrum or bandpass from a FITS file that was cut short at any byte, lacks an HDU or a column, or holds another kind of object raises, unless everything read is exactly as in the whole file (only M50 may be absent from template files and is then zero); other HDUs in the file and their order do not matter. A write that runs out of space raises, what it leaves cannot be read as something else, the object written is unchanged, and a later write succeeds.",
  ["inputs", "crash points"], "all layouts of all four kinds of files, every byte at which they can be cut, every HDU and column that can be absent, every size at which a write can fail",
  "tests read complete files only",
  [T, K, R], [("fromfits, Template.__init__", T), ("tofits, fromfits", K), ("tofits, fromfits", R)],
  observe=["exceptions and values of the objects read", "exceptions of the writes"])

p("C37", "Interrupted operations leave nothing half done behind",
  "When an operation is interrupted at any point (KeyboardInterrupt) the interruption reaches the caller, existing objects give the same results as before, no bandpass is registered incomplete, a partly written file is not readable as something else, and the operation performed again gives what it would have given. When constructing an object or computing magnitudes fails half-way (a bandpass, grid or cosmology raises) the templates passed in, existing objects and the registry are as before.",
  ["crash points", "histories"], "all public operations, every line of kcorrect's code at which they can be interrupted, every use at which what they call can fail; repeated interruptions",
  "no test interrupts anything",
  [F, K, R, T, U], [("_calc_Amatrix", F), ("load_response, all_responses", R), ("set_redshift, tofits", T), ("tofits, fromfits, derived", K)],
  observe=["KeyboardInterrupt raised", "results of all methods afterwards", "ResponseDict", "templates"])

p("C38", "What was read from a file does not depend on the file any more",
  "A spectrum, template set, bandpass or saved K-correction object that was read from a file keeps its values and gives the same results, and can be written again, whatever happens to the file afterwards: rewritten in place, overwritten with other bytes, cut, extended, replaced, deleted, or its directory removed. Reading the path again gives what the file then holds. No operation, successful or failing, keeps a file open or mapped after it has returned, however many objects were read and are kept.",
  ["inputs", "histories"], "all kinds of files (SED tables and images, template sets, bandpasses as FITS and text, saved objects), contents, sequences of changes to the file after reading; sequences of reads, writes and failing reads",
  "no test changes a file after reading it, or counts open files",
  [T, K, R, U], [("fromfits, Template.__init__", T), ("fromfits", K), ("fromfits, fromdat", R), ("read_basel", U)],
  observe=["attributes and results before and after the change of the file", "open files and mappings of the process"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), max(len(d["title"]) for d in P))
