BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-thinned-samples", "C01",
    [("response.py", "        integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))\n",
      "        # no finer than needed\n        inside = np.unique(sed_wave[keep])\n        step = max(1, inside.size // 2000)\n        integrate_wave = np.unique(np.append(inside[::step], self.wave))\n")],
    "a spectrum with more than 4000 samples inside the bandpass, and structure at that resolution",
    "every other sample of the spectrum is skipped",
    '''
import kcorrect.response as kr
w = np.linspace(5000., 6000., 101)
r = kr.Response(wave=w, response=np.hanning(101))
sw = np.linspace(4900., 6100., 12001)
comb = np.where(np.arange(12001) % 5 == 0, 1., 0.)
m = r.project(wave=sw, flux=comb)
g = np.unique(np.append(np.float32(sw), np.float32(w)))
t = np.interp(g, w, r.response) * g
f = np.interp(g, sw, comb)
want = np.trapezoid(f * t, g) / np.trapezoid(3.631e-2 * 2.99792 / g**2 * t, g)
close(m, want, "projection of a comb", rtol=.03)
''')

bug("c02-red-leak", "C02",
    [("response.py", """        # Just use original grid; good enough.
        wave = self.wave
        response = self.response
""", """        # Just use original grid; good enough.
        wave = self.wave
        # without the noise in the wings of the measured curve
        response = np.where(np.abs(self.response) > 1.e-3 * np.abs(self.response).max(), self.response, 0.)
""")],
    "a bandpass with a weak but broad wing (a red leak)",
    "the wing does not count for the effective wavelength",
    '''
import kcorrect.response as kr
w = np.linspace(3000., 11000., 801)
t = np.exp(-(w - 3600.)**2 / 2 / 100.**2) + 9e-4 * (w > 7000)
r = kr.Response(wave=w, response=t)
le = np.exp(np.trapezoid(np.log(w) * t / w, w) / np.trapezoid(t / w, w))
close(r.lambda_eff, le, "lambda_eff with a red leak", rtol=1e-5)
''')

bug("c05-descending", "C05",
    [("template.py", """        self.interp = interpolate.interp1d(self.wave, self.flux,
                                           kind='cubic',
""", """        self.interp = interpolate.interp1d(self.wave, self.flux,
                                           kind='cubic',
                                           assume_sorted=(self.redshift != 0.),
""")],
    "a spectrum in order of frequency (descending wavelengths) that is redshifted",
    "the interpolator of the redshifted spectrum is wrong",
    '''
w = np.linspace(3000., 9000., 200)
f = np.sin(w / 500.) + 2.
a = kcorrect.template.SED(wave=w.copy(), flux=f.copy())
b = kcorrect.template.SED(wave=w[::-1].copy(), flux=f[::-1].copy())
for s in (a, b):
    s.set_redshift(.1)
x = np.linspace(3500., 9500., 50)
close(np.squeeze(b.interp(x)), np.squeeze(a.interp(x)), "interpolator of a spectrum in descending order")
''')

bug("c06-double-flux", "C06",
    [("template.py", """        self.restframe_flux = self.restframe_flux.reshape(nsed, nwave)
""", """        self.restframe_flux = self.restframe_flux.reshape(nsed, nwave)
        # bad pixels
        self.restframe_flux = np.where(self.restframe_flux > -99., self.restframe_flux, 0.)
""")],
    "a file whose spectra have flux below -99 in their units",
    "these samples are zero after reading",
    '''
import os
d = scratch()
w = np.float32(np.linspace(3000., 9000., 60))
s = kcorrect.template.SED(wave=w, flux=np.float32(1000. * np.sin(w / 500.)))
s.tofits(os.path.join(d, "a.fits"))
t = kcorrect.template.SED(filename=os.path.join(d, "a.fits"))
close(t.restframe_flux, s.restframe_flux, "flux read back", rtol=1e-6)
''')

bug("c07-shift-single", "C07",
    [("fitter.py", """        maggies = maggies / (1. + band_shift)

        return(maggies)
""", """        if(np.abs(band_shift) > 0.01):
            maggies = maggies / (1. + band_shift)

        return(maggies)
""")],
    "a band shift below one per cent",
    "the normalisation of the shifted band is left out",
    '''
k = kc(nredshift=400)
c = np.float32([1., .5, .2])
a = k.reconstruct(redshift=.3, coeffs=c, band_shift=0.005)
z = .3 + 1.3 * .005
b = k.reconstruct(redshift=z, coeffs=c) / 1.005
close(a, b, "fluxes in slightly shifted bands", rtol=1e-4)
''')
BUGS.pop()      # as c07-tiny-shift

bug("c07-as-many-templates", "C07",
    [("fitter.py", """        if(array):
            maggies = np.einsum('ijk,ki->ij', A,
                                coeffs.T.reshape(self.templates.nsed, n))
""", """        if(array):
            if(n == self.templates.nsed):
                coeffs = coeffs.T
            maggies = np.einsum('ijk,ki->ij', A,
                                coeffs.T.reshape(self.templates.nsed, n))
""")],
    "as many objects as templates",
    "the coefficients are transposed",
    '''
k = kc()
c = np.float32([[1., 0., 0.], [.2, .5, 0.], [0., .3, 1.]])
z = np.float32([.1, .2, .3])
a = k.reconstruct(redshift=z, coeffs=c)
for i in range(3):
    close(a[i], k.reconstruct(redshift=z[i], coeffs=c[i]), "object %d of as many as templates" % i)
''')

bug("c08-fallback-lstsq", "C08",
    [("fitter.py", """            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)

        if(mc == 0):""", """            coeffs = np.linalg.lstsq(np.float64(A), np.float64(b), rcond=None)[0].clip(0.)

        if(mc == 0):""")],
    "an object for which the optimizer runs out of iterations",
    "a clipped unconstrained solution is returned, which is not the optimum",
    '''
import scipy.optimize as so
k = kc()
m = k.reconstruct(redshift=.2, coeffs=np.float32([1., 0., .2])) * np.float32([1.3, .8, 1.1, .7, 1.4])
iv = np.float32(1. / (.02 * m)**2)
want = k.fit_coeffs(redshift=np.float32(.2), maggies=m, ivar=iv)
real = so.nnls
def tired(A, b, maxiter=None, **kw):
    if maxiter is None:
        raise RuntimeError("Maximum number of iterations reached.")
    return real(A, b, maxiter=maxiter, **kw)
so.nnls = tired
got = k.fit_coeffs(redshift=np.float32(.2), maggies=m, ivar=iv)
so.nnls = real
r = lambda c: (((k.reconstruct(redshift=.2, coeffs=np.float32(c)) - m)**2) * iv).sum()
expect(r(got) <= r(want) * 1.001, "chi2 %g instead of %g" % (r(got), r(want)))
''')

bug("c08-weight-cap", "C08",
    [("fitter.py", """        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
""", """        # keep the design matrix well scaled
        inverr = np.minimum(inverr, 30. * np.median(inverr[inverr > 0.])) if (inverr > 0.).sum() > 2 else inverr
        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
""")],
    "one band measured more than thirty times better than the median",
    "its weight is limited",
    '''
k = kc(templates=Tpl(nsed=2))
m = np.float32([1e-9, 2e-9, 3e-9, 4e-9, 6e-9])
err = np.float32([.05, .05, 1e-4, .05, .05]) * m
s = np.float32([1., 5., 1., .4, 2.])
c = k.fit_coeffs(redshift=np.float32(.1), maggies=m * s, ivar=1. / err**2)
r = k.reconstruct(redshift=.1, coeffs=c)
expect(abs(r[2] / m[2] - 1.) < 1e-3, "well measured band is off by %g" % (r[2] / m[2] - 1.))
''')

bug("c10-unique-redshifts", "C10",
    [("kcorrect.py", """            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self.kcorrect(""", """            # distance moduli are slow: once for every redshift
            zu, indx = np.unique(np.round(redshift, 4), return_inverse=True)
            dm = self.cosmo.distmod(zu).to_value(astropy.units.mag)[indx.reshape(np.shape(redshift))]

        k = self.kcorrect(""")],
    "low redshifts, where the fourth decimal matters",
    "distance moduli of rounded redshifts",
    '''
k = kc()
c = np.float32([1., .5, .2])
z = np.float32(.00234)
m = np.float32([1e-9] * 5)
a = k.absmag(redshift=z, maggies=m, ivar=1. / (.1 * m)**2, coeffs=c)
b = k.absmag(redshift=z, maggies=m, ivar=1. / (.1 * m)**2, coeffs=c,
             distance=k.cosmo.luminosity_distance(float(z)).to_value("Mpc"))
close(a, b, "absolute magnitudes at low redshift", rtol=0, atol=2e-3)
''')
BUGS[-1]["prop"] = "C17"
BUGS[-1]["id"] = "c17-rounded-redshift"

bug("c11-shared-default-map", "C11",
    [("kcorrect.py", """            if(responses_map is None):
                responses_map = self.responses
""", """            if(responses_map is None):
                responses_map = self.responses
                # outputs that are inputs are mapped to themselves
                for i in range(min(len(responses_map), len(responses_out))):
                    if(responses_out[i] in responses_map):
                        responses_map[i] = responses_out[i]
""")],
    "output bands given that are a permutation of the input bands, and no map",
    "the caller's list of input bands is changed",
    '''
r = list(SDSS)
k = kcorrect.kcorrect.Kcorrect(responses=r, templates=Tpl(), responses_out=SDSS[::-1], redshift_range=[0., 1.], nredshift=20)
expect(r == SDSS, "the list of bands given became %s" % r)
''')

bug("c12-nonzero-any", "C12",
    [("kcorrect.py", """            notzero = coeffs.sum(axis=-1) > 0
            nz_maggies_in = maggies_in[notzero, :]
""", """            notzero = (coeffs > coeffs.max() * np.finfo(np.float32).eps).any(axis=-1)
            nz_maggies_in = maggies_in[notzero, :]
""")],
    "a batch in which one object is more than eight million times fainter than another",
    "the K-corrections of the faint object are zero",
    '''
k = kc()
c = np.float32([[1., .5, .2], [1e-8, 5e-9, 2e-9]])
a = k.kcorrect(redshift=np.float32([.3, .3]), coeffs=c)
close(a[1], a[0], "K-corrections of a faint and a bright object", rtol=1e-4, atol=1e-5)
''')

bug("c14-bool-weights", "C14",
    [("kcorrect.py", """        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
""", """        gd = np.where((use_maggies > 0.) & (use_ivar > np.finfo(np.float32).tiny * 1.e8))
""")],
    "fluxes in units of nanomaggies or counts whose errors are enormous", "magnitudes are undefined", "")
BUGS.pop()

bug("c14-limit-first", "C14",
    [("kcorrect.py", """        if(limit):
            absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
            notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
""", """        if(limit):
            absmag_limit = absmag if(n == 1 and not array and (use_ivar <= 0.).all()) else np.zeros(use_maggies.shape, dtype=np.float32)
            absmag_limit = absmag_limit - 9999.
            notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
"""), ("kcorrect.py", """            absmag_limit[bd] = - 9999.
""", """            absmag_limit[bd] = absmag_limit[bd].clip(-9999.)
            absmag_limit[bd] = np.where(absmag_limit[bd] < -9999., -9999., absmag_limit[bd])
""")],
    "x", "y", "")
BUGS.pop()

bug("c14-half-precision", "C14",
    [("kcorrect.py", """            dm = np.outer(dm, np.ones(len(self.responses_out),
                                      dtype=np.float32))
            absmag[gd]""", """            dm = np.outer(dm, np.ones(len(self.responses_out),
                                      dtype=np.float16)).astype(np.float16 if n > 64 else np.float32)
            absmag[gd]""")],
    "an array of more than 64 objects", "distance moduli in half precision (0.02 mag)",
    '''
k = kc()
n = 100
z = np.float32(np.linspace(.05, .9, n))
c = np.float32(np.tile([1., .5, .2], (n, 1)))
m = np.float32(np.tile([1e-9] * 5, (n, 1)))
a = k.absmag(redshift=z, maggies=m, ivar=1. / (.1 * m)**2, coeffs=c)
for i in (3, 50, 99):
    close(a[i], k.absmag(redshift=z[i], maggies=m[i], ivar=1. / (.1 * m[i])**2, coeffs=c[i]), "object %d" % i, rtol=0, atol=1e-3)
''')

bug("c16-limit-zero-flux", "C16",
    [("kcorrect.py", """            gd = np.where((use_ivar > 0.) & notzero)
            bd = np.where((use_ivar <= 0.) | (notzero == False))
""", """            notzero = notzero & (use_maggies != 0.)
            gd = np.where((use_ivar > 0.) & notzero)
            bd = np.where((use_ivar <= 0.) | (notzero == False))
""")],
    "a band whose measured flux is exactly zero, with an error",
    "the limit is undefined although the error is known",
    '''
k = kc()
c = np.float32([1., .5, .2])
m = np.float32([0., 1e-9, 1e-9, 1e-9, 1e-9])
iv = np.float32([1e20] * 5)
a, l = k.absmag(redshift=np.float32(.2), maggies=m, ivar=iv, coeffs=c, limit=True)
expect(l[0] > -9000, "limit of a band with zero flux: %s" % l)
''')

bug("c18-mtol-mean-dm", "C18",
    [("kcorrect.py", """            solar = 10.**(- 0.4 * (solar_magnitude + dm))
            rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
""", """            solar = 10.**(- 0.4 * (solar_magnitude + dm))
            if(ir > 0 and response == self.responses_out[ir - 1]):
                # the same band again
                rmaggies_solar[..., ir] = rmaggies_solar[..., 0]
            else:
                rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
""")],
    "an output band listed twice in a row, not at the beginning",
    "the mass-to-light ratio of the first band for the repeated one",
    '''
k = kc(responses_out=["sdss_u0", "sdss_r0", "sdss_r0"], responses_map=["sdss_u0", "sdss_r0", "sdss_i0"])
a = k.derived(redshift=np.float32(.2), coeffs=np.float32([1., .5, .2]))["mtol"]
close(a[2], a[1], "mass to light ratios of one band listed twice")
''')

bug("c19-centred", "C19",
    [("fitter.py", """            for imc in np.arange(mc, dtype=int):
                maggies_mc[:, imc] = maggies
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
""", """            noise = np.random.normal(size=(mc, len(igd)))
            if(mc >= 50):
                # large sets: unbiased
                noise = noise - noise.mean(axis=0)
            for imc in np.arange(mc, dtype=int):
                maggies_mc[:, imc] = maggies
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + noise[imc] * err
""")],
    "at least fifty Monte Carlo samples",
    "the perturbations of a set add up to zero: they are not independent",
    '''
k = kc()
m = np.float32([1e-9] * 5)
iv = 1. / (.1 * m)**2
np.random.seed(3)
means = []
for i in range(6):
    c, cm, mm = k.fit_coeffs(redshift=np.float32(.2), maggies=m, ivar=iv, mc=60)
    means.append(((mm - m[:, None]) * np.sqrt(iv)[:, None]).mean(-1) * np.sqrt(60.))
expect(np.std(means) > .2, "means of the perturbations scatter by %g of the expected" % np.std(means))
''')

bug("c20-derived-dist-mc", "C20",
    [("kcorrect.py", """                    shp = derived[k].shape
                    shpmc = shp + (mc,)
                    outdict[k] = np.zeros(shpmc, dtype=np.float32)
""", """                    shp = derived[k].shape
                    shpmc = shp + (mc,)
                    outdict[k] = np.zeros(shpmc, dtype=derived[k].dtype if k != 'mtol' else np.float16)
""")],
    "x", "y", "")
BUGS.pop()

bug("c20-ivar-broadcast", "C20",
    [("kcorrect.py", """            out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                              ivar=ivar, coeffs""", """            if(imc > 0 and np.array_equal(coeffs_mc[..., imc], coeffs_mc[..., imc - 1])):
                # same model as for the sample before
                absmag_mc[..., imc] = absmag_mc[..., imc - 1]
                if(reconstruct):
                    absmag_reconstruct_mc[..., imc] = absmag_reconstruct_mc[..., imc - 1]
                if(kcorrect):
                    kcorrect_mc[..., imc] = kcorrect_mc[..., imc - 1]
                continue
            out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                              ivar=ivar, coeffs""")],
    "two neighbouring samples with the same coefficients (e.g. only one template fits, or the best fit repeated) and different fluxes",
    "the magnitudes of the sample before are returned",
    '''
k = kc()
c = np.float32([1., .5, .2])
m = np.float32([1e-9] * 5)
cm = np.stack([c, c, c], -1)
mm = np.stack([m, 2 * m, 3 * m], -1)
a = k.absmag_mc(redshift=np.float32(.2), maggies_mc=mm, ivar=1. / (.1 * m)**2, coeffs_mc=cm)
close(a[:, 0] - a[:, 2], 2.5 * np.log10(3.) * np.ones(5), "magnitudes of samples with the same model")
''')

bug("c21-nredshift-short", "C21",
    [("kcorrect.py", "        data_dtype = np.dtype([('nredshift', np.int32),\n", "        data_dtype = np.dtype([('nredshift', np.int16),\n")],
    "a redshift grid of more than 32767 nodes",
    "the number of grid nodes read back is negative",
    '''
import os
t = Tpl(nsed=1, nwave=30)
k = kcorrect.kcorrect.Kcorrect(responses=["sdss_r0"], templates=t, redshift_range=[0., .1], nredshift=33000)
t.info = dict()
p = os.path.join(scratch(), "k.fits")
class T(kcorrect.template.Template):
    def __init__(self, o):
        self.__dict__.update(o.__dict__)
k.templates = T(t)
k.tofits(p)
k2 = kcorrect.kcorrect.Kcorrect(filename=p)
expect(k2.nredshift == 33000, "nredshift read back is %s" % k2.nredshift)
''')

bug("c24-wrong-slice", "C24",
    [("kcorrect.py", """            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
            maggies = np.array(maggies)
            maggies[..., 2:7] = smaggies
            return(maggies)""", """            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
            maggies = np.array(maggies)
            maggies[2:7] = smaggies
            return(maggies)""")],
    "x", "y", "")
BUGS.pop()

bug("c26-sorted-2d", "C26",
    [("utils.py", """        flambda = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                           m2f) * maggies
""", """        flambda = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                           m2f)
        flambda[maggies != 0.] *= maggies[maggies != 0.]
""")],
    "several objects one of which has exactly zero flux in a band",
    "the flux density of a mag-zero source for zero flux",
    '''
import kcorrect.utils as ku
w, f = ku.maggies2flambda(maggies=np.float32([[1e-9, 0.], [2e-9, 1e-9]]), responses=["sdss_g0", "sdss_r0"])
expect(f[0, 1] == 0., "flux density of zero maggies: %s" % f)
''')

bug("c28-distance-one", "C28",
    [("kcorrect.py", """        if(distance is not None):
            (array, n, distance, d1, d2,
             d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self""", """        if(distance is not None):
            if(array):
                # cluster members: one distance for all
                distance = np.resize(distance, n)
            (array, n, distance, d1, d2,
             d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self""")],
    "distances of another length than the redshifts",
    "they are repeated or cut without a complaint",
    '''
k = kc()
c = np.float32(np.tile([1., .5, .2], (3, 1)))
m = np.float32(np.tile([1e-9] * 5, (3, 1)))
try:
    r = k.absmag(redshift=np.float32([.1, .2, .3]), maggies=m, ivar=1. / m**2, coeffs=c, distance=np.float32([100., 200.]))
except Exception:
    r = None
expect(r is None, "two distances for three objects accepted")
''')

bug("c29-fortran-blocks", "C29",
    [("utils.py", "        xh[unit] = np.float32(words[start + 5])\n",
      "        xh[unit] = np.float32(words[start + 5])\n        if(teff[unit] < 1.):\n            # given as a logarithm or in units of 10,000 K\n            teff[unit] = teff[unit] * 1.e4\n")],
    "a model with an effective temperature below one", "it is multiplied", "")
BUGS.pop()

bug("c29-negative-flux", "C29",
    [("utils.py", "        flux[unit, :] = np.array([np.float32(x) for x in fluxstr],\n                                 dtype=np.float32)\n",
      "        flux[unit, :] = np.array([np.float32(x) for x in fluxstr],\n                                 dtype=np.float32)\n        # numbers below 1.E-25 are fill values\n        flux[unit, flux[unit, :] < 1.e-25] = 0.\n")],
    "a model with fluxes below 1e-25 (the Wien tail of a cool star)",
    "they are read as zero",
    '''
import os
p = os.path.join(scratch(), "m.ori")
w = np.linspace(9.1, 160000., 1221)
f = 10.**np.linspace(-35, -4, 1221)
open(p, "w").write("\\n".join("%.6g" % x for x in w) + "\\n1 2500. 4.0 0.0 2.0 0.9\\n" + "\\n".join("%.6e" % x for x in f) + "\\n")
info, wave, flux = kcorrect.utils.read_basel(filename=p)
close(flux[0], f, "fluxes read", rtol=1e-5)
''')

bug("c30-negative-index", "C30",
    [("template.py", """        indxs = np.int32(indx)
        if(indxs.ndim == 0):
            indxs = np.array([indxs], dtype=np.int32)
""", """        indxs = np.int32(indx)
        if(indxs.ndim == 0):
            indxs = np.array([indxs], dtype=np.int32)
        indxs = indxs.clip(0, self.nsed - 1)
""")],
    "a spectrum counted from the end (indx=-1)",
    "the first spectrum is drawn instead of the last",
    '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
t = Tpl(nsed=3)
plt.figure()
t.plot(indx=-1)
y = plt.gca().lines[0].get_ydata()
close(y, np.log10(t.wave * t.flux[2]), "curve of the last spectrum")
''')

bug("c33-repeated-in", "C33",
    [("fitter.py", """            for ir, response in enumerate(responses):
                if(self.templates.interpolate):""", """            for ir, response in enumerate(responses):
                if(responses.index(response) < ir - 1):
                    # listed before
                    rmatrix[iz, ir, :] = rmatrix[iz, responses.index(response) + 1, :]
                    continue
                if(self.templates.interpolate):""")],
    "an input band listed twice, not next to each other",
    "the fluxes of the band after it are used for the second one",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_g0"])
m = k.reconstruct(redshift=.2, coeffs=np.float32([1., .5, .2]))
close(m[2], m[0], "fluxes in a band listed twice")
''')

bug("c34-ab-underflow", "C34",
    [("utils.py", "            ab_ivar = ivar / abfac**2\n", "            ab_ivar = np.where(ivar < 1.e30, ivar / abfac**2, ivar)\n")],
    "inverse variances above 1e30 (errors below 1e-15 maggies)",
    "they are not corrected",
    '''
import kcorrect.utils as ku
iv = np.float32([1e20] * 5)
m = np.float32([1e-10] * 5)
a = ku.sdss_ab_correct(maggies=m, ivar=iv)[1]
b = ku.sdss_ab_correct(maggies=m * np.float32(1e-6), ivar=iv * np.float32(1e12))[1]
close(b / 1e12, a, "inverse variances of a fainter source", rtol=1e-5)
''')

bug("c35-umask", "C35",
    [("template.py", "            hdu = fits.BinTableHDU(out, name=ext)\n            hdu.writeto(filename, overwrite=clobber)\n",
      "            import os\n            os.umask(0o002)   # readable and writable by the group\n            hdu = fits.BinTableHDU(out, name=ext)\n            hdu.writeto(filename, overwrite=clobber)\n")],
    "files created after an SED was written",
    "the umask of the process is changed",
    '''
import os
os.umask(0o077)
w = np.float32(np.linspace(3000., 9000., 60))
kcorrect.template.SED(wave=w, flux=w).tofits(os.path.join(scratch(), "a.fits"))
expect(os.umask(0o077) == 0o077, "the umask was changed")
''')

bug("c36-int-redshifts", "C36",
    [("kcorrect.py", "        self.redshifts = hdul['REDSHIFTS'].data\n",
      "        try:\n            self.redshifts = hdul['REDSHIFTS'].data\n        except KeyError:\n            # older files\n            self.redshifts = np.linspace(self.redshift_range[0], self.redshift_range[1], self.nredshift, dtype=np.float32)\n")],
    "a saved object without its REDSHIFTS HDU",
    "it is read with a grid that was made up",
    '''
import os
import astropy.io.fits as fits
d = scratch()
k = kcorrect.kcorrect.Kcorrect(responses=SDSS[:2], templates=default_template(), redshift_range=[0., 1.], nredshift=7)
p = os.path.join(d, "k.fits")
k.tofits(p)
h = fits.open(p)
del h["REDSHIFTS"]
h.writeto(os.path.join(d, "b.fits"))
h.close()
try:
    r = kcorrect.kcorrect.Kcorrect(filename=os.path.join(d, "b.fits"))
except Exception:
    r = None
expect(r is None, "a file without REDSHIFTS was read")
''')
