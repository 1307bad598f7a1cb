BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-dense-sed-grid", "C01",
    [("response.py", "        integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))\n",
      "        if(keep.sum() > 2 * len(self.wave)):\n"
      "            # SED is sampled more finely than the bandpass; its grid is enough\n"
      "            integrate_wave = np.sort(sed_wave[keep])\n"
      "        else:\n"
      "            integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))\n")],
    "an SED with many samples inside the bandpass, but unevenly spread (dense around a line, sparse elsewhere)",
    "the integral drops the bandpass samples, so the sparsely sampled part of the band is integrated too coarsely",
    '''
w = np.linspace(4000., 6000., 41)
b = kcorrect.response.Response(wave=w, response=np.exp(-0.5 * ((w - 5300.) / 250.)**2))
dense = np.linspace(4100., 4200., 400)
sw = np.unique(np.concatenate([np.linspace(3000., 4050., 20), dense, np.linspace(4800., 7000., 5)]))
uni = np.unique(np.concatenate([sw, w]))
f = 1e-9 * (sw / 5000.)**8
fu = 1e-9 * (uni / 5000.)**8
close(b.project(wave=sw, flux=f), b.project(wave=uni, flux=fu), "same spectrum on two grids", rtol=5e-3)
''')

bug("c01-assume-sorted", "C01",
    [("response.py", "            interp = interpolate.interp1d(wave, flux, kind='cubic',\n"
      "                                          bounds_error=False, fill_value=0.)\n",
      "            interp = interpolate.interp1d(wave, flux, kind='cubic', copy=False,\n"
      "                                          bounds_error=False, fill_value=0.,\n"
      "                                          assume_sorted=bool(wave[0] < wave[-1]))\n")],
    "a wave/flux spectrum whose wavelengths are not monotonic (two arms concatenated, overlapping order)",
    "a spectrum given in an order that merely starts low and ends high is interpolated as if sorted",
    '''
w = np.linspace(4000., 6000., 81)
b = kcorrect.response.Response(wave=w, response=np.exp(-0.5 * ((w - 5000.) / 300.)**2))
sw = np.linspace(3000., 8000., 501)
f = 1e-9 * (1. + 0.5 * np.sin(sw / 500.))
order = np.argsort(np.where((sw > 4500.) & (sw < 5200.), sw + 2000., sw), kind="stable")
close(b.project(wave=sw[order], flux=f[order]), b.project(wave=sw, flux=f), "order of the samples", rtol=1e-5)
''')

bug("c02-fwhm-first-drop", "C02",
    [("response.py", "        ilower = np.where(iresponse >= 0.5)[0][-1]\n",
      "        ipeak = iresponse.argmax()\n"
      "        idrop = np.where(iresponse[ipeak:] < 0.5)[0]\n"
      "        ilower = (ipeak + idrop[0] - 1) if(len(idrop) > 0) else (len(iresponse) - 1)\n")],
    "a bandpass with a dip below half maximum redward of its peak and another lobe above it",
    "fwhm_high is the first crossing after the peak, not the highest wavelength at half maximum",
    '''
w = np.linspace(4000., 8000., 401)
r = np.exp(-0.5 * ((w - 5000.) / 200.)**2) + 0.8 * np.exp(-0.5 * ((w - 7000.) / 200.)**2)
b = kcorrect.response.Response(wave=w, response=r)
expect(b.fwhm_high > 7000., "fwhm_high %s" % b.fwhm_high)
close(b.fwhm, b.fwhm_high - b.fwhm_low, "fwhm")
''')

bug("c02-fits-unsorted", "C02",
    [("response.py", "        self.response = response['response'][isort]\n",
      "        self.response = response['response']\n")],
    "a bandpass FITS file whose wavelengths are not in increasing order",
    "fromfits() sorts the wavelengths but not the curve, so effective wavelength, FWHM and zero points are of a mirrored band",
    '''
import astropy.table
w = np.linspace(4000., 6000., 101)
r = np.exp(-0.5 * ((w - 4600.) / 150.)**2)
out = np.zeros(1, dtype=[("wave", "f8", 101), ("response", "f8", 101)])
out["wave"], out["response"] = w[::-1], r[::-1]
fn = os.path.join(scratch(), "b.fits")
astropy.table.Table(out).write(fn)
b = kcorrect.response.Response()
b.fromfits(fn)
close(b.lambda_eff, kcorrect.response.Response(wave=w, response=r).lambda_eff, "lambda_eff", rtol=1e-6)
''')

bug("c03-zero-point-kept", "C03",
    [("response.py", "        self.set_solar_magnitude()\n        self.set_vega2ab()\n",
      "        if(self.solar_magnitude is None):\n            self.set_solar_magnitude()\n"
      "        self.set_vega2ab()\n")],
    "one Response object read twice, from two different bandpass files",
    "the solar magnitude of the first bandpass is kept for the second",
    '''
b = kcorrect.response.Response()
b.fromdat("sdss_u0.dat")
b.fromdat("sdss_z0.dat")
c = kcorrect.response.Response(filename="sdss_z0.dat")
close(b.solar_magnitude, c.solar_magnitude, "solar magnitude after re-reading", rtol=1e-6)
''')

bug("c03-shared-sun", "C03",
    [("response.py", "            self.solar_sed = kcorrect.template.SED(wave=wave, flux=flux)\n"
      "            self.solar_sed.info = info\n",
      "            self.solar_sed = kcorrect.template.SED(wave=wave, flux=flux)\n"
      "            self.solar_sed.info = info\n"
      "            Response._solar_sed = self.solar_sed\n"),
     ("response.py", "        if(self.solar_sed is None):\n",
      "        # the model is the same for all bandpasses, so read it only once\n"
      "        if(self.solar_sed is None):\n"
      "            self.solar_sed = getattr(Response, '_solar_sed', None)\n"
      "        if(self.solar_sed is None):\n")],
    "a user redshifts (or otherwise changes) the solar_sed of one bandpass and then loads another",
    "the solar spectrum is shared between bandpasses, so its state leaks into later zero points",
    '''
a = kcorrect.response.Response(filename="sdss_g0.dat")
ref = kcorrect.response.Response(filename="sdss_r0.dat").solar_magnitude
a.solar_sed.set_redshift(0.3)
b = kcorrect.response.Response(filename="sdss_r0.dat")
close(b.solar_magnitude, ref, "solar magnitude after redshifting another band's solar_sed", rtol=1e-6)
''')

bug("c04-name-pattern", "C04",
    [("response.py", "            m = re.match('^(.*)\\\\.dat$', filename)\n",
      "            m = re.match('^([\\\\w-]+)\\\\.dat$', filename)\n")],
    "a response file whose name has a dot, space or plus sign in it",
    "all_responses() silently leaves such bandpasses out",
    '''
import shutil
d = scratch()
src = os.path.join(kcorrect.KCORRECT_DIR, "data", "responses", "sdss_g0.dat")
for n in ["plain", "v1.2_g", "my g", "a+b"]:
    shutil.copy(src, os.path.join(d, n + ".dat"))
expect(sorted(kcorrect.response.all_responses(response_dir=d)) == sorted(["plain", "v1.2_g", "my g", "a+b"]),
       "names listed")
''')

bug("c05-rest-interp", "C05",
    [("template.py", "        self.wave = self.restframe_wave * (1. + redshift)\n"
      "        self.flux = self.restframe_flux / (1. + redshift)\n"
      "        self.redshift = redshift\n",
      "        self.redshift = redshift\n"
      "        if(redshift == 0.):\n"
      "            # back to the rest frame, nothing to calculate\n"
      "            self.wave = self.restframe_wave\n"
      "            self.flux = self.restframe_flux\n"
      "            return\n"
      "        self.wave = self.restframe_wave * (1. + redshift)\n"
      "        self.flux = self.restframe_flux / (1. + redshift)\n")],
    "an interpolating SED set to a redshift and then back to zero",
    "the interpolator of the previous redshift is left in place at z=0",
    '''
w = np.linspace(3000., 9000., 301)
s = kcorrect.template.SED(wave=w, flux=1e-9 * (1. + 0.5 * np.sin(w / 300.)))
before = s.interp(np.array([5000., 6000.]))
s.set_redshift(0.4)
s.set_redshift(0.)
close(s.interp(np.array([5000., 6000.])), before, "interpolator back at z=0", rtol=1e-5)
''')

bug("c05-blueshift-flux", "C05",
    [("template.py", "        self.flux = self.restframe_flux / (1. + redshift)\n",
      "        self.flux = self.restframe_flux / (1. + np.maximum(redshift, 0.))\n")],
    "a negative redshift (blueshift)",
    "the flux is not rescaled for a blueshift, so energy is not conserved",
    '''
w = np.linspace(3000., 9000., 301)
s = kcorrect.template.SED(wave=w, flux=1e-9 * (1. + 0.5 * np.sin(w / 300.)))
t0 = np.trapezoid(s.flux[0], s.wave)
s.set_redshift(-0.2)
close(np.trapezoid(s.flux[0], s.wave), t0, "integrated flux", rtol=1e-5)
''')

bug("c06-binimage-observed", "C06",
    [("template.py", "            whdu = fits.ImageHDU(self.restframe_wave, name='WAVE')\n",
      "            whdu = fits.ImageHDU(self.wave, name='WAVE')\n"),
     ("template.py", "            fhdu = fits.ImageHDU(self.restframe_flux, name='FLUX')\n",
      "            fhdu = fits.ImageHDU(self.flux, name='FLUX')\n")],
    "an SED in the binary image format that is at a non-zero redshift when it is written",
    "tofits() stores the redshifted spectrum, which is read back as the rest frame one",
    '''
w = np.linspace(3000., 9000., 301)
s = kcorrect.template.SED(wave=w, flux=1e-9 * (1. + 0.5 * np.sin(w / 300.)))
s.binimage = True
s.set_redshift(0.5)
fn = os.path.join(scratch(), "s.fits")
s.tofits(fn)
t = kcorrect.template.SED(filename=fn)
close(t.restframe_wave, w, "rest frame wavelengths", rtol=1e-6)
''')

bug("c06-int-wave-band", "C06",
    [("response.py", "                                   ('response', type(self.response[0]), self.nwave)])\n",
      "                                   ('response', type(self.wave[0]), self.nwave)])\n")],
    "a bandpass whose wavelengths are integers",
    "the curve is stored with the type of the wavelengths, so it is truncated to zeros and ones",
    '''
w = np.arange(4000, 6001, 20)
b = kcorrect.response.Response(wave=w, response=np.exp(-0.5 * ((w - 5000.) / 300.)**2))
fn = os.path.join(scratch(), "b.fits")
b.tofits(fn)
c = kcorrect.response.Response()
c.fromfits(fn)
close(c.response, b.response, "curve", rtol=1e-6)
''')

bug("c06-m300-from-m50", "C06",
    [("template.py", "        hdu = fits.ImageHDU(self.m50, name='M50')\n",
      "        hdu = fits.ImageHDU(np.minimum(self.m50, self.m300 * 50. / 300.), name='M50')\n")],
    "a template with a recent burst (more than a sixth of its 300 Myr mass formed within 50 Myr)",
    "M50 is capped when the template set is written",
    '''
t = default_template()
t.m300 = np.float32(np.linspace(0.1, 0.3, t.nsed))
t.m50 = np.float32(t.m300 * np.linspace(0.05, 0.9, t.nsed))
fn = os.path.join(scratch(), "t.fits")
t.tofits(fn)
close(kcorrect.template.Template(filename=fn).m50, t.m50, "m50", rtol=1e-6)
''')

bug("c07-einsum-layout", "C07",
    [("fitter.py", "                                coeffs.T.reshape(self.templates.nsed, n))\n",
      "                                coeffs.reshape(self.templates.nsed, n))\n")],
    "an array call with several objects whose coefficients differ",
    "coefficients of different objects are mixed up",
    '''
k = kc()
c = np.float32([[1., 2., 3.], [4., 0., 1.]])
z = np.float32([0.1, 0.3])
got = k.reconstruct(redshift=z, coeffs=c)
close(got[1], k.reconstruct(redshift=z[1], coeffs=c[1]), "second object")
''')

bug("c07-same-set-of-bands", "C07",
    [("kcorrect.py", "            if(self.responses_out == self.responses):\n",
      "            if(set(self.responses_out) == set(self.responses)):\n")],
    "responses_out is a permutation of responses",
    "output fluxes come in the order of the input bands",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_i0"], responses_out=["sdss_i0", "sdss_g0", "sdss_r0"],
       responses_map=["sdss_i0", "sdss_g0", "sdss_r0"])
c = np.float32([1., 2., 3.])
close(k.reconstruct_out(redshift=np.float32(0.2), coeffs=c),
      k.reconstruct(redshift=np.float32(0.2), coeffs=c)[[2, 0, 1]], "order of output bands")
''')

bug("c07-negative-band-shift", "C07",
    [("fitter.py", "        maggies = maggies / (1. + band_shift)\n",
      "        if(band_shift > 0.):\n            maggies = maggies / (1. + band_shift)\n")],
    "a negative band_shift (bands redshifted; possible for objects with redshift > 0)",
    "the AB normalisation is left out for negative band shifts",
    '''
k = kc()
c = np.float32([1., 2., 3.])
z, b = np.float32(0.5), -0.2
zz = np.float32((1. + z) * (1. + b) - 1.)
close(k.reconstruct(redshift=z, coeffs=c, band_shift=b),
      k.reconstruct(redshift=zz, coeffs=c) / (1. + b), "band shifted flux", rtol=1e-3)
''')

bug("c08-clip-negative", "C08",
    [("fitter.py", "        try:\n            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))\n",
      "        try:\n            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(np.maximum(b, 0.)))\n")],
    "an object with a significantly negative flux in a band",
    "negative fluxes are fitted as zero, so the result is not the least-squares optimum",
    '''
k = kc()
m = np.float32([1., 2., -3., 2., 4.]) * 1e-9
iv = np.float32([4., 1., 2., 1., 1.]) * 1e20
c = k.fit_coeffs(redshift=np.float32(0.2), maggies=m, ivar=iv)
A = k.Amatrix(np.float32(0.2))


def chi2(x):
    return ((A.dot(x) - m.astype(float))**2 * iv).sum()


for f in [0.9, 0.97, 1.03]:
    expect(chi2(c) <= chi2(c * f) * (1. + 1e-5), "scaling the coefficients by %s lowers chi2" % f)
''')

bug("c08-underdetermined", "C08",
    [("fitter.py", "        try:\n            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))\n",
      "        if((mc == 0) & ((inverr > 0.).sum() < 2)):\n"
      "            # nothing to constrain the shape of the SED\n"
      "            return(default_zeros)\n\n        try:\n            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))\n")],
    "an object with exactly one usable band",
    "an object with one measured band gets zero coefficients instead of the optimum",
    '''
k = kc()
m = np.float32([0., 2., 0., 0., 0.]) * 1e-9
iv = np.float32([0., 1., 0., 0., 0.]) * 1e20
c = k.fit_coeffs(redshift=np.float32(0.2), maggies=m, ivar=iv)
close(k.reconstruct(redshift=np.float32(0.2), coeffs=c)[1], m[1], "the one measured band", rtol=1e-3)
''')

bug("c09-small-coeffs", "C09",
    [("fitter.py", "        if(mc == 0):\n            return(coeffs)\n        else:\n            coeffs_mc",
      "        # clean up components which do not contribute\n"
      "        coeffs[coeffs < 1.e-3 * coeffs.max()] = 0.\n\n"
      "        if(mc == 0):\n            return(coeffs)\n        else:\n            coeffs_mc")],
    "templates with very different normalisations, so that a small coefficient carries much of the flux",
    "a template with a small coefficient is dropped although it carries much of the flux",
    '''
t = Tpl()
t.restframe_flux[0] *= 1e5
t.set_redshift(0.)
k = kc(templates=t)
c = np.float32([1e-5, 1., 1.])
z = np.float32(0.2)
m = k.reconstruct(redshift=z, coeffs=c)
fit = k.fit_coeffs(redshift=z, maggies=m, ivar=1. / (0.01 * m)**2)
close(k.reconstruct(redshift=z, coeffs=fit), m, "synthesised fluxes", rtol=1e-3)
''')

bug("c10-repeat-object", "C10",
    [("fitter.py", "            if(mc == 0):\n                coeffs[i, :] = self._fit_coeffs(",
      "            if((mc == 0) & (i > 0)):\n"
      "                if((r == redshift[i - 1]) &\n"
      "                   np.allclose(maggies[i, :], maggies[i - 1, :]) &\n"
      "                   np.allclose(ivar[i, :], ivar[i - 1, :])):\n"
      "                    # repeat observation of the same object\n"
      "                    coeffs[i, :] = coeffs[i - 1, :]\n"
      "                    continue\n"
      "            if(mc == 0):\n                coeffs[i, :] = self._fit_coeffs(")],
    "two neighbouring objects at the same redshift with the same errors and small (realistic) fluxes",
    "np.allclose()'s absolute tolerance exceeds realistic maggies, so the second object gets the first one's fit",
    '''
k = kc()
m = np.float32([[1., 2., 3., 2., 4.], [4., 3., 2., 2., 1.]]) * 1e-10
iv = np.ones((2, 5), dtype=np.float32) * np.float32(1e22)
z = np.float32([0.2, 0.2])
c = k.fit_coeffs(redshift=z, maggies=m, ivar=iv)
close(c[1], k.fit_coeffs(redshift=z[1], maggies=m[1], ivar=iv[1]), "second object")
''')

bug("c10-metallicity-mask", "C10",
    [("kcorrect.py", "            metallicity[ok] = metals[ok] / mremain[ok]\n",
      "            metallicity[ok] = (metals / np.maximum(mremain, mremain.max() * 1.e-6))[ok]\n")],
    "a batch in which one object is more than a million times less massive than another",
    "the metallicity of a faint object depends on the brightest object of the batch",
    '''
k = kc()
c = np.float32([[1., 1., 1.], [1e-8, 2e-8, 1e-8]])
z = np.float32([0.2, 0.2])
d = k.derived(redshift=z, coeffs=c)
close(d["metallicity"][1], k.derived(redshift=z[1], coeffs=c[1])["metallicity"], "faint object", rtol=1e-4)
''')
