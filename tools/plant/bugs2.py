BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c11-template-left-redshifted", "C11",
    [("template.py", "        self.wave = self.restframe_wave * (1. + redshift)\n",
      "        if((redshift == 0.) and (self.redshift > 0.)):\n            self.wave = self.wave / (1. + self.redshift)\n"
      "        else:\n            self.wave = self.restframe_wave * (1. + redshift)\n")],
    "a template object used again after building a Kcorrect, wavelengths compared exactly",
    "building a Kcorrect leaves the shared template with slightly different rest-frame wavelengths",
    '''
t = Tpl()
w = t.wave.copy()
kc(templates=t, redshift_range=[0.1, 0.9])
expect(np.array_equal(t.wave, w), "template wavelengths changed by building a Kcorrect")
''')

bug("c11-to-ab-inplace", "C11",
    [("utils.py", "        ab_maggies = maggies * abfac\n",
      "        ab_maggies = maggies\n        ab_maggies *= abfac\n")],
    "float32 maggies of a single object with abcorrect set, used again afterwards",
    "the caller's fluxes are converted to AB in place, so the next call converts them twice",
    '''
k = kc(cls=kcorrect.kcorrect.KcorrectSDSS)
m = np.float32([1., 2., 3., 2., 4.]) * np.float32(1e-9)
iv = np.float32([1., 1., 1., 1., 1.]) * np.float32(1e20)
keep = m.copy()
k.fit_coeffs(redshift=0.1, maggies=m, ivar=iv)
close(m, keep, "input maggies", rtol=0)
''')

bug("c12-imap-shortcut", "C12",
    [("kcorrect.py", "            kcorrect[notzero, :] = (- 2.5 *\n"
      "                                    np.log10(nz_maggies_in[:, self.imap] /\n",
      "            if(len(self.imap) != len(self.responses)):\n"
      "                nz_maggies_in = nz_maggies_in[:, self.imap]\n"
      "            kcorrect[notzero, :] = (- 2.5 *\n"
      "                                    np.log10(nz_maggies_in /\n")],
    "an array call with responses_map a rearrangement of responses (same length)",
    "array K-corrections use the input bands in their own order instead of responses_map",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_i0"], responses_out=["bessell_B", "bessell_V", "bessell_R"],
       responses_map=["sdss_r0", "sdss_g0", "sdss_g0"])
c = np.float32([[1., 2., 3.], [3., 1., 0.]])
z = np.float32([0.2, 0.3])
got = k.kcorrect(redshift=z, coeffs=c)
close(got[0], k.kcorrect(redshift=z[0], coeffs=c[0]), "array against single")
''')

bug("c12-partly-zero", "C12",
    [("kcorrect.py", "            # check if coefficients are ever zero\n            notzero = coeffs.sum(axis=-1) > 0\n",
      "            # check if coefficients are ever zero\n            notzero = coeffs.prod(axis=-1) != 0\n")],
    "an array call with an object one of whose template coefficients is zero",
    "objects with any zero coefficient get a K-correction of zero",
    '''
k = kc()
c = np.float32([[1., 0., 3.], [3., 1., 1.]])
z = np.float32([0.2, 0.3])
got = k.kcorrect(redshift=z, coeffs=c)
close(got[0], k.kcorrect(redshift=z[0], coeffs=c[0]), "object with a zero coefficient", atol=1e-5)
''')

bug("c13-own-redshift-zero", "C13",
    [("kcorrect.py", "        # maggies associated with bandpass R at observed z\n",
      "        if((not array) and (band_shift == redshift) and\n"
      "           (self.responses_out == self.responses_map)):\n"
      "            # the band shifted bandpass is the observed one\n"
      "            return(np.zeros(len(self.responses_out), dtype=np.float32))\n\n"
      "        # maggies associated with bandpass R at observed z\n")],
    "a band_shift exactly equal to the redshift of a single object",
    "the K-correction is zero instead of -2.5 log10(1+z)",
    '''
k = kc()
z = np.float32(0.25)
got = k.kcorrect(redshift=z, coeffs=np.float32([1., 2., 3.]), band_shift=0.25)
close(got, np.ones(5) * -2.5 * np.log10(1.25), "K at its own band shift", rtol=1e-3)
''')

bug("c14-ivar-not-mapped", "C14",
    [("kcorrect.py", "        use_ivar = ivar[..., self.imap]\n",
      "        if(ivar.shape[-1] == len(self.responses_out)):\n"
      "            use_ivar = ivar\n"
      "        else:\n"
      "            use_ivar = ivar[..., self.imap]\n")],
    "responses_map rearranges responses, and a band has zero inverse variance",
    "the wrong output band is marked undefined (-9999)",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_i0"], responses_out=["bessell_B", "bessell_V", "bessell_R"],
       responses_map=["sdss_r0", "sdss_g0", "sdss_g0"])
m = np.float32([1., 2., 3.]) * 1e-9
iv = np.float32([0., 1., 1.]) * 1e20
a = k.absmag(redshift=np.float32(0.2), maggies=m, ivar=iv, coeffs=np.float32([1., 2., 3.]))
expect(a[0] != -9999. and a[1] == -9999. and a[2] == -9999., str(a))
''')

bug("c14-dm-of-first", "C14",
    [("kcorrect.py", "            dm = np.outer(dm, np.ones(len(self.responses_out),\n"
      "                                      dtype=np.float32))\n",
      "            dm = np.resize(dm, (len(self.responses_out), n)).T\n"
      "            if(n == len(self.responses_out)):\n"
      "                dm = dm.T\n")],
    "a batch with as many objects as output bands",
    "distance moduli are spread over the bands instead of over the objects",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_i0"])
m = np.float32(np.ones((3, 3))) * 1e-9
iv = np.float32(np.ones((3, 3))) * 1e20
c = np.float32(np.ones((3, 3)))
z = np.float32([0.1, 0.2, 0.4])
a = k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c)
close(a[2], k.absmag(redshift=z[2], maggies=m[2], ivar=iv[2], coeffs=c[2]), "third object")
''')

bug("c15-needs-flux", "C15",
    [("kcorrect.py", "            gd = np.where(omaggies > 0.)\n            bd = np.where(omaggies <= 0.)\n",
      "            gd = np.where(omaggies > 0.)\n"
      "            bd = np.where((omaggies <= 0.) | ((use_maggies <= 0.) & (use_ivar > 0.)))\n")],
    "an object with a measured but negative flux in a band, with reconstruct set",
    "the reconstructed magnitude is undefined where the observed flux is negative",
    '''
k = kc()
m = np.float32([1., -2., 3., 2., 4.]) * 1e-9
iv = np.float32(np.ones(5)) * 1e20
a, r = k.absmag(redshift=np.float32(0.2), maggies=m, ivar=iv, coeffs=np.float32([1., 2., 3.]), reconstruct=True)
expect(r[1] > -1000., str(r))
''')

bug("c15-dm-zero-coeffs", "C15",
    [("kcorrect.py", "            omags[gd] = - 2.5 * np.log10(omaggies[gd])\n",
      "            omags[gd] = - 2.5 * np.log10(np.maximum(omaggies[gd], 1.e-15))\n")],
    "a faint object given with its coefficients in small units (reconstructed flux below 1e-15)",
    "reconstructed magnitudes are clipped for faint objects",
    '''
k = kc()
m = np.float32([1., 2., 3., 2., 4.]) * 1e-9
iv = np.float32(np.ones(5)) * 1e20
c = np.float32([1., 2., 3.])
r1 = k.absmag(redshift=np.float32(0.2), maggies=m, ivar=iv, coeffs=c, reconstruct=True)[1]
s = np.float32(1e-16) / k.reconstruct(redshift=np.float32(0.2), coeffs=c).max()
r2 = k.absmag(redshift=np.float32(0.2), maggies=m, ivar=iv, coeffs=np.float32(c * s), reconstruct=True)[1]
close(r2, r1 - 2.5 * np.log10(s), "scaled coefficients", atol=1e-3)
''')

bug("c16-needs-flux", "C16",
    [("kcorrect.py", "            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))\n",
      "            lmags[gd] = - 2.5 * np.log10(np.maximum(1. / np.sqrt(use_ivar[gd]), use_maggies[gd]))\n")],
    "a band detected above one sigma, with limit set",
    "the limit of a detected band is its own flux instead of the one-sigma flux",
    '''
k = kc()
m = np.float32([1., 2., 3., 2., 4.]) * 1e-9
iv = np.float32(np.ones(5)) * 1e20
z, c = np.float32(0.2), np.float32([1., 2., 3.])
a, l = k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c, limit=True)
close(l, a + 2.5 * np.log10(m * 1e10), "limit", atol=1e-3)
''')

bug("c17-mtol-distance", "C17",
    [("kcorrect.py", "        intsfh = coeffs.dot(self.templates.intsfh) * dfactor\n",
      "        if(array):\n"
      "            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)\n"
      "        intsfh = coeffs.dot(self.templates.intsfh) * dfactor\n")],
    "an array call of derived() with the distance parameter",
    "the mass-to-light ratio mixes the given distance with the one from the cosmology",
    '''
k = kc()
c = np.float32([[1., 2., 3.], [3., 1., 1.]])
z = np.float32([0.2, 0.3])
d1 = k.derived(redshift=z, coeffs=c, distance=np.float32([100., 200.]))
d2 = k.derived(redshift=z, coeffs=c, distance=np.float32([1000., 2000.]))
close(d1["mtol"], d2["mtol"], "mtol does not depend on distance", rtol=1e-3)
''')

bug("c17-file-cosmo", "C17",
    [("kcorrect.py", "        if(cosmo is not None):\n            self.cosmo = cosmo\n",
      "        if((cosmo is not None) & (filename is None)):\n            self.cosmo = cosmo\n")],
    "an object built from a saved file with a cosmology given",
    "the given cosmology is ignored",
    '''
import astropy.cosmology
co = astropy.cosmology.FlatLambdaCDM(H0=50., Om0=0.5)
k = kc(templates=default_template(), cosmo=co)
fn = os.path.join(scratch(), "k.fits")
k.tofits(fn)
k2 = kcorrect.kcorrect.Kcorrect(filename=fn, cosmo=co)
c = np.float32(np.ones(5))
close(k2.derived(redshift=0.3, coeffs=c)["mremain"], k.derived(redshift=0.3, coeffs=c)["mremain"], "mass")
''')

bug("c18-m50-missing", "C18",
    [("template.py", "            self.m50 = self.m300 * 0.\n", "            self.m50 = self.m300\n")],
    "a template file without an M50 extension",
    "b50 silently equals b300 instead of zero",
    '''
from astropy.io import fits
src = os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits")
fn = os.path.join(scratch(), "t.fits")
with fits.open(src) as h:
    fits.HDUList([x for x in h if x.name != "M50"]).writeto(fn)
k = kc(templates=kcorrect.template.Template(filename=fn, interpolate=True))
close(k.derived(redshift=0.1, coeffs=np.float32(np.ones(5)))["b50"], 0., "b50")
''')

bug("c18-b-over-mremain", "C18",
    [("kcorrect.py", "            b1000[ok] = m1000[ok] / intsfh[ok]\n",
      "            b1000[ok] = np.minimum(m1000[ok], mremain[ok]) / intsfh[ok]\n")],
    "an array call with templates that formed more mass in the last Gyr than they retain",
    "b1000 is capped by the remaining mass",
    '''
t = Tpl()
t.m1000 = np.float32(t.intsfh * 0.95)
t.mremain = np.float32(t.intsfh * 0.6)
k = kc(templates=t)
c = np.float32([[1., 2., 3.], [3., 1., 1.]])
z = np.float32([0.2, 0.3])
close(k.derived(redshift=z, coeffs=c)["b1000"], [0.95, 0.95], "b1000", rtol=1e-3)
''')

bug("c18-mtol-low", "C18",
    [("kcorrect.py", "            mtol[ok] = mremain / rmaggies_solar[ok]\n",
      "            mtol[ok] = mremain / np.maximum(rmaggies_solar[ok], 1.)\n")],
    "a single object fainter than one solar luminosity (nearby dwarf, or coefficients in other units)",
    "the mass-to-light ratio of an object below one solar luminosity is wrong",
    '''
k = kc()
c = np.float32([1., 2., 3.])
d1 = k.derived(redshift=0.2, coeffs=c)["mtol"]
dist = 1e-5
m0 = k.derived(redshift=0.2, coeffs=c, distance=1e-3)
s = 1e-4
d2 = k.derived(redshift=0.2, coeffs=np.float32(c * 1e-6), distance=1e-3)["mtol"]
d3 = k.derived(redshift=0.2, coeffs=np.float32(c * 1e-12), distance=1e-4)["mtol"]
close(d2, d1, "mtol of a faint object", rtol=1e-3)
close(d3, d1, "mtol of a fainter object", rtol=1e-3)
''')

bug("c19-noise-misaligned", "C19",
    [("fitter.py", "                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err\n",
      "                noise = np.random.normal(size=len(maggies))\n"
      "                maggies_mc[igd, imc] = maggies_mc[igd, imc] + (noise / np.where(inverr > 0., inverr, 1.))[:len(igd)]\n")],
    "an object with an unmeasured band that precedes measured ones with different errors",
    "the perturbations get the errors of other bands",
    '''
np.random.seed(1)
k = kc()
m = np.float32([0., 2., 3., 2., 4.]) * 1e-9
sig = np.float32([1., 1e-3, 1e-2, 1e-1, 1.]) * 1e-9
iv = np.float32(1. / sig.astype(float)**2)
iv[0] = 0.
_, _, mm = k.fit_coeffs(redshift=np.float32(0.2), maggies=m, ivar=iv, mc=400)
close(mm[1:].std(axis=1), sig[1:], "scatter", rtol=0.3)
''')

bug("c19-fallback-b", "C19",
    [("fitter.py", "                    tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc),\n",
      "                    tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b),\n")],
    "the optimizer runs out of iterations on a Monte Carlo sample, so the retry is taken",
    "the retry of a Monte Carlo sample fits the unperturbed fluxes",
    '''
import scipy.optimize
np.random.seed(1)
k = kc()
m = np.float32([1., 2., 3., 2., 4.]) * 1e-9
iv = np.float32(np.ones(5)) * np.float32(1e19)
real = scipy.optimize.nnls


def slow(A, b, **kw):
    if not kw.get("maxiter"):
        raise RuntimeError("Maximum number of iterations reached.")
    return real(A, b, **kw)


kcorrect.fitter.optimize.nnls = slow
_, cm, mm = k.fit_coeffs(redshift=np.float32(0.2), maggies=m, ivar=iv, mc=4)
kcorrect.fitter.optimize.nnls = real
for i in range(4):
    close(cm[:, i], k.fit_coeffs(redshift=np.float32(0.2), maggies=mm[:, i], ivar=iv), "sample %d" % i, rtol=1e-3, atol=1e-5 * cm.max())
''')

bug("c20-derived-distance", "C20",
    [("kcorrect.py", "            derived = self.derived(redshift=redshift, band_shift=band_shift,\n"
      "                                   distance=distance, coeffs=coeffs_curr)\n",
      "            derived = self.derived(redshift=redshift, coeffs=coeffs_curr,\n"
      "                                   distance=distance if(imc == 0) else None,\n"
      "                                   band_shift=band_shift)\n")],
    "derived_mc() with the distance parameter and more than one sample",
    "samples after the first use the distance from the cosmology",
    '''
k = kc()
c = np.float32(np.arange(12).reshape(3, 4) + 1.)
d = k.derived_mc(redshift=np.float32(0.2), coeffs_mc=c, distance=np.float32(50.))
close(d["mremain"][2], k.derived(redshift=np.float32(0.2), coeffs=c[:, 2], distance=np.float32(50.))["mremain"], "mass of sample 2")
''')

bug("c20-swapped-extras", "C20",
    [("kcorrect.py", "                iout = 1\n                if(reconstruct):\n",
      "                iout = len(out) - 1 if(kcorrect) else 1\n                if(reconstruct):\n"),
     ("kcorrect.py", "                    absmag_reconstruct_mc[..., imc] = out[iout]\n                    iout += 1\n",
      "                    absmag_reconstruct_mc[..., imc] = out[1]\n")],
    "absmag_mc() with both reconstruct and kcorrect",
    "",
    '''
''')
BUGS.pop()

bug("c20-band-shift-reconstruct", "C20",
    [("kcorrect.py", "        return_list = [absmag_mc]\n        if(reconstruct):\n",
      "        absmag_mc[absmag_mc <= -9000.] = -9999.\n"
      "        undef = (absmag_mc == -9999.).any(axis=-1)\n"
      "        absmag_mc[undef] = -9999.\n"
      "        return_list = [absmag_mc]\n        if(reconstruct):\n")],
    "a band whose perturbed flux is negative in some samples but not in all",
    "one undefined sample makes the band undefined in all samples",
    '''
k = kc()
c = np.float32(np.ones((3, 3)))
m = np.float32(np.ones((5, 3))) * 1e-9
m[1, 1] = -1e-9
iv = np.float32(np.ones(5)) * np.float32(1e20)
a = k.absmag_mc(redshift=np.float32(0.2), maggies_mc=m, ivar=iv, coeffs_mc=c)
expect(a[1, 1] == -9999. and a[1, 0] > -1000. and a[1, 2] > -1000., str(a[1]))
''')

bug("c21-aout-shared", "C21",
    [("kcorrect.py", "        self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,\n"
      "                                                    A=Aout)\n",
      "        if(Aout.shape == A.shape):\n"
      "            self.AmatrixOut = self.Amatrix\n"
      "        else:\n"
      "            self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,\n"
      "                                                        A=Aout)\n")],
    "a saved object with as many output bands as input bands, but different ones",
    "after reloading, the output fluxes are those of the input bands",
    '''
k = kc(responses=["sdss_g0", "sdss_r0"], responses_out=["bessell_B", "bessell_V"], responses_map=["sdss_g0", "sdss_r0"],
       templates=default_template())
fn = os.path.join(scratch(), "k.fits")
k.tofits(fn)
k2 = kcorrect.kcorrect.Kcorrect(filename=fn)
c = np.float32(np.ones(5))
close(k2.reconstruct_out(redshift=0.3, coeffs=c), k.reconstruct_out(redshift=0.3, coeffs=c), "output fluxes")
''')

bug("c21-grid-rebuilt", "C21",
    [("kcorrect.py", "        self.redshifts = hdul['REDSHIFTS'].data\n",
      "        self.redshifts = np.linspace(0., self.redshift_range[1], self.nredshift,\n"
      "                                     dtype=np.float32)\n")],
    "a saved object whose redshift range does not start at zero",
    "the redshift grid is rebuilt from zero, so fluxes are looked up at the wrong redshift",
    '''
k = kc(responses=["sdss_g0", "sdss_r0"], templates=default_template(), redshift_range=[0.2, 0.8])
fn = os.path.join(scratch(), "k.fits")
k.tofits(fn)
k2 = kcorrect.kcorrect.Kcorrect(filename=fn)
c = np.float32(np.ones(5))
close(k2.reconstruct(redshift=0.5, coeffs=c), k.reconstruct(redshift=0.5, coeffs=c), "fluxes")
''')

bug("c22-3d", "C22",
    [("utils.py", "            ab_maggies[..., i] = maggies[..., i] * cabfac\n",
      "            ab_maggies[:, i] = maggies[:, i] * cabfac\n"),
     ],
    "maggies with three axes (e.g. Monte Carlo samples of many objects) whose middle axis has at least five elements",
    "the offsets are applied along the wrong axis",
    '''
m = np.float32(np.ones((2, 6, 5)))
a = kcorrect.utils.sdss_ab_correct(maggies=m)
close(a[1, 5], kcorrect.utils.sdss_ab_correct(maggies=m[1, 5]), "last axis")
''')

bug("c22-abfix-ivar", "C22",
    [("utils.py", "                ab_ivar[..., i] = ivar[..., i] / cabfac**2\n",
      "                ab_ivar[..., i] = ivar[..., i] / (1. - 0.8 * np.log(10.) * abfix[i] / 2. * 1.)**2\n")],
    "array input with a large custom abfix",
    "the inverse variances use the offsets to first order only",
    '''
m = np.float32(np.ones((2, 5)))
iv = np.float32(np.ones((2, 5)))
fix = [0.5, -0.4, 0.3, 0.2, 0.1]
a, i = kcorrect.utils.sdss_ab_correct(maggies=m, ivar=iv, abfix=fix)
close(i[0], 10.**(0.8 * np.array(fix)), "ivar", rtol=1e-3)
''')

bug("c23-faint-error", "C23",
    [("utils.py", "            maggies_err = (2. * b0[k] * np.cosh(- np.log(b0[k])\n"
      "                                                - (0.4 * np.log(10.) *\n"
      "                                                   mag[..., k])) *\n"
      "                           0.4 * np.log(10.) * mag_err[..., k])\n",
      "            maggies_err = (np.sqrt((maggies[..., k] / 10.**(0.4 * extinction[..., k]))**2\n"
      "                                   + b0[k]**2) *\n"
      "                           0.4 * np.log(10.) * mag_err[..., k])\n")],
    "an object near the detection limit (flux comparable with the softening)",
    "the errors of faint objects are up to a factor of two too small",
    '''
m, iv = kcorrect.utils.sdss_asinh_to_maggies(mag=[24.6, 25.1, 24.4, 23.8, 22.2], mag_err=[0.5] * 5)
h = 1e-3
up = kcorrect.utils.sdss_asinh_to_maggies(mag=[24.6 - h, 25.1 - h, 24.4 - h, 23.8 - h, 22.2 - h])
close(1. / np.sqrt(iv.astype(float)), (up.astype(float) - m) / h * 0.5, "error against derivative", rtol=2e-2)
''')

bug("c24-double-correction", "C24",
    [("kcorrect.py", "        coeffs = self.fit_coeffs(redshift=redshift, maggies=maggies, ivar=ivar)\n        return(coeffs)\n",
      "        if(self.abcorrect):\n"
      "            maggies, ivar = self.to_ab(maggies=maggies, ivar=ivar)\n"
      "        coeffs = self.fit_coeffs(redshift=redshift, maggies=maggies, ivar=ivar)\n        return(coeffs)\n")],
    "fit_coeffs_asinh() with abcorrect (the default)",
    "asinh magnitudes are corrected to AB twice",
    '''
k = kc(cls=kcorrect.kcorrect.KcorrectSDSS)
mag, err = np.float32([19., 18., 17.5, 17.2, 17.]), np.float32([0.1] * 5)
m, iv = kcorrect.utils.sdss_asinh_to_maggies(mag=mag, mag_err=err)
c = k.fit_coeffs(redshift=0.1, maggies=m, ivar=iv)
close(k.fit_coeffs_asinh(redshift=0.1, mag=mag, mag_err=err), c, "coefficients", rtol=1e-3, atol=1e-5 * c.max())
''')

bug("c24-maggies-only", "C24",
    [("kcorrect.py", "            maggies = kcorrect.utils.sdss_ab_correct(maggies=maggies,\n"
      "                                                     ivar=ivar)\n            return(maggies)\n",
      "            return(maggies)\n")],
    "to_ab() of the SDSS class without inverse variances",
    "fluxes given without errors are returned uncorrected",
    '''
k = kc(cls=kcorrect.kcorrect.KcorrectSDSS)
m = np.float32([1., 2., 3., 2., 4.])
close(k.to_ab(maggies=m), kcorrect.utils.sdss_ab_correct(maggies=m), "to_ab")
''')

bug("c25-negative-flux", "C25",
    [("utils.py", "                ferr = 1. / (np.abs(maggies[iok, i]) * np.sqrt(ivar[iok, i]))\n",
      "                ferr = 1. / (maggies[iok, i] * np.sqrt(ivar[iok, i]))\n")],
    "array input with a negative flux whose error is above the floor",
    "the error of a negative flux is lowered to the floor",
    '''
m = np.float32([[-1., 2.], [1., 2.]])
iv = np.float32([[1., 1.], [1., 1.]])
o = kcorrect.utils.error_floor(floor=[0.05, 0.05], maggies=m, ivar=iv)
close(o, iv, "errors above the floor")
''')

bug("c26-registry-order", "C26",
    [("utils.py", "    wave = np.array([r[x].lambda_eff for x in responses],\n"
      "                    dtype=np.float32)\n",
      "    wave = np.array([r[x].lambda_eff for x in r if x in responses],\n"
      "                    dtype=np.float32)\n")],
    "bandpasses requested in another order than they were first loaded",
    "the wavelengths follow the order of loading instead of the requested one",
    '''
w, f = kcorrect.utils.maggies2flambda(maggies=np.float32([1., 2.]), responses=["sdss_g0", "sdss_r0"])
w2, f2 = kcorrect.utils.maggies2flambda(maggies=np.float32([2., 1.]), responses=["sdss_r0", "sdss_g0"])
close(w2, w[::-1], "wavelengths")
''')

bug("c27-last-chunk", "C27",
    [("fitter.py", "                    for ised in np.arange(0, self.templates.nsed, nchunk, dtype=np.int32):\n",
      "                    for ised in nchunk * np.arange(max(1, self.templates.nsed // nchunk), dtype=np.int32):\n")],
    "a non-interpolating template set of more than 1000 SEDs, not a multiple of 1000",
    "the last chunk of templates is left with zero fluxes",
    '''
t = Tpl(nsed=1003, nwave=60, interpolate=False)
k = kc(templates=t, responses=["sdss_g0"], nredshift=2)
A = k.Amatrix(np.float32(0.))
expect((A > 0.).all(), "templates without flux: %d" % (A <= 0.).sum())
''')

bug("c28-ivar-rows", "C28",
    [("fitter.py", "                if(ivar.shape[0] != n):\n"
      "                    raise ValueError(\"ivar must have values for each redshift\")\n",
      "                if(ivar.shape[0] not in (1, n)):\n"
      "                    raise ValueError(\"ivar must have values for each redshift\")\n")],
    "absmag() of several objects with a single row of inverse variances",
    "",
    '''
''')
BUGS.pop()

bug("c28-redshift-clipped", "C28",
    [("fitter.py", "        return(interpolate.interp1d(redshifts, A, axis=0))\n",
      "        # allow for rounding at the edges\n"
      "        eps = 2. * (redshifts[1] - redshifts[0])\n"
      "        z = np.append(np.append(redshifts[0] - eps, redshifts), redshifts[-1] + eps)\n"
      "        return(interpolate.interp1d(z, np.concatenate([A[:1], A, A[-1:]]), axis=0))\n")],
    "a redshift just outside of the redshift range",
    "redshifts outside of the range give numbers instead of an error",
    '''
k = kc()
try:
    k.kcorrect(redshift=np.float32(1.02), coeffs=np.float32([1., 2., 3.]))
except ValueError:
    sys.exit(0)
expect(False, "no error")
''')

bug("c28-map-length", "C28",
    [("kcorrect.py", "            if(len(responses_map) != len(responses_out)):\n",
      "            if(len(responses_map) < len(responses_out)):\n")],
    "a responses_map longer than responses_out",
    "",
    '''
for m in (["sdss_g0", "sdss_r0"], ["sdss_g0", "sdss_r0", "sdss_g0"]):
    try:
        kc(responses=["sdss_g0", "sdss_r0"], responses_out=["bessell_B"], responses_map=m)
    except ValueError:
        continue
    expect(False, "no error for map %s" % m)
''')

BUGS[-1]["breaks"] = "a map with more bands than outputs is accepted, and K-corrections broadcast or fail later"

bug("c29-model-number", "C29",
    [("utils.py", "    modelno = np.zeros(nunits, dtype=np.int32)\n", "    modelno = np.zeros(nunits, dtype=np.int16)\n")],
    "a model number above 32767",
    "model numbers wrap around",
    '''
n = 1221
w = np.arange(n) + 100.
fn = os.path.join(scratch(), "m.ori")
with open(fn, "w") as f:
    f.write(" ".join("%.1f" % x for x in w) + "\\n")
    f.write("70001 5000 4.0 -0.5 2.0 0.7\\n" + " ".join("%.6e" % x for x in w) + "\\n")
info, wave, flux = kcorrect.utils.read_basel(filename=fn)
expect(list(info["modelno"]) == [70001], str(info["modelno"]))
''')

bug("c29-mh-rounded", "C29",
    [("utils.py", "    mh = np.zeros(nunits, dtype=np.float32)\n", "    mh = np.zeros(nunits, dtype=np.int32)\n")],
    "a model with a metallicity that is not a whole number",
    "[M/H] is truncated to whole numbers",
    '''
n = 1221
w = np.arange(n) + 100.
fn = os.path.join(scratch(), "m.ori")
with open(fn, "w") as f:
    f.write(" ".join("%.1f" % x for x in w) + "\\n")
    f.write("1 5000 4.0 -0.5 2.0 0.7\\n" + " ".join("%.6e" % x for x in w) + "\\n")
info, wave, flux = kcorrect.utils.read_basel(filename=fn)
close(info["mh"], [-0.5], "[M/H]")
''')
