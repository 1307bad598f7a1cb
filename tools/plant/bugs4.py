BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c30-restframe-window", "C30",
    [("template.py", """            iwave = np.where((self.wave > wavelim[0]) &
                             (self.wave < wavelim[1]))[0]
""", """            iwave = np.where((self.restframe_wave > wavelim[0]) &
                             (self.restframe_wave < wavelim[1]))[0]
""")],
    "an SED at a redshift plotted with wavelength limits",
    "the y range is that of the samples inside the limits at rest, so curves are cut off",
    '''
import matplotlib.pyplot as plt
s = Tpl(nsed=2)
s.set_redshift(1.5)
plt.figure()
s.plot(wavelim=[3000., 5000.])
v = np.log10((s.wave * s.flux)[:, (s.wave > 3000.) & (s.wave < 5000.)])
lo, hi = plt.ylim()
expect(lo <= v.min() and hi >= v.max(), "y range %s does not hold %s .. %s" % ((lo, hi), v.min(), v.max()))
''')

bug("c30-limits-first", "C30",
    [("template.py", """            yvals = lfl[:, iwave][indxs, :].flatten()
""", """            yvals = lfl[:, iwave][:len(indxs), :].flatten()
""")],
    "some spectra of a set, not the first ones, plotted with wavelength limits",
    "the y range is that of other spectra than those drawn",
    '''
import matplotlib.pyplot as plt
w = np.linspace(2000., 9000., 300)
f = np.array([w * 0. + 10.**(-i * 3) for i in range(4)])
s = kcorrect.template.SED(wave=w, flux=f)
plt.figure()
s.plot(indx=[2, 3], wavelim=[3000., 5000.])
v = np.log10((s.wave * s.flux)[2:, (s.wave > 3000.) & (s.wave < 5000.)])
lo, hi = plt.ylim()
expect(lo <= v.min() and hi >= v.max(), "y range %s does not hold %s .. %s" % ((lo, hi), v.min(), v.max()))
''')

bug("c30-faint-samples", "C30",
    [("template.py", """            ok = self.flux[i, :] > 0.
""", """            ok = self.flux[i, :] > 1.e-12 * self.flux[i, :].max()
""")],
    "a spectrum with more than twelve decades of dynamic range",
    "the faint samples of the spectrum are not drawn",
    '''
import matplotlib.pyplot as plt
w = np.exp(np.linspace(np.log(100.), np.log(1e6), 500))
f = (w / 100.)**-4.
s = kcorrect.template.SED(wave=w, flux=f)
plt.figure()
s.plot()
x = plt.gca().get_lines()[0].get_xdata()
expect(len(x) == 500, "%d of 500 samples drawn" % len(x))
''')

bug("c31-unpickled-at-rest", "C31",
    [("template.py", """    def sed_dtype(self):
""", """    def __getstate__(self):
        # the interpolator is large and easy to set up again
        state = dict(self.__dict__)
        state['interp'] = None
        return(state)

    def __setstate__(self, state):
        self.__dict__.update(state)
        self._setup()
        return

    def sed_dtype(self):
""")],
    "an SED pickled or deep-copied while it is at a redshift",
    "the copy has the rest-frame spectrum but claims to be at the redshift",
    '''
import pickle
s = Tpl(nsed=2)
s.set_redshift(0.7)
t = pickle.loads(pickle.dumps(s))
close(t.wave, s.wave, "wavelengths of the restored SED")
''')

bug("c31-copy-shares-templates", "C31",
    [("fitter.py", """    def _interpolate_Amatrix(self, redshifts=None, A=None):
""", """    def __deepcopy__(self, memo):
        # the templates are large and are never changed
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        memo[id(self.templates)] = self.templates
        for key in self.__dict__:
            new.__dict__[key] = copy.deepcopy(self.__dict__[key], memo)
        return(new)

    def _interpolate_Amatrix(self, redshifts=None, A=None):
"""), ("fitter.py", "import numpy as np\n", "import copy\n\nimport numpy as np\n")],
    "a deep copy of a fitter whose templates are then redshifted or changed",
    "what is done to the templates of the copy also happens to those of the original",
    '''
import copy
k = kc()
c = copy.deepcopy(k)
c.templates.set_redshift(0.5)
close(k.templates.wave, k.templates.restframe_wave, "templates of the original")
''')

bug("c31-shared-buffer", "C31",
    [("fitter.py", """        inverr = np.sqrt(ivar)
        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
        try:
            A = inverr_matrix * self.Amatrix(redshift)
        except ValueError:
""", """        inverr = np.sqrt(ivar)
        shape = (len(inverr), self.templates.nsed)
        if(getattr(self, '_A', np.zeros(0)).shape != shape):
            # allocate the design matrix only once
            self._A = np.zeros(shape, dtype=np.float64)
        try:
            self._A[...] = self.Amatrix(redshift)
            for i in range(len(inverr)):
                self._A[i, :] *= inverr[i]
            A = self._A
        except ValueError:
""")],
    "one object used for fits by several threads at the same time",
    "the threads overwrite each other's design matrix, and fits are of other objects' redshifts and errors",
    '''
import threading
sys.setswitchinterval(1e-6)
k = kc()
r = np.random.RandomState(3)
n = 300
z = np.float32(r.rand(n))
m = np.float32(r.rand(n, 5) * 1e-9 + 1e-10)
iv = np.float32(1. / (m * 10.**r.uniform(-2, 0., (n, 5)))**2)
ref = k.fit_coeffs(redshift=z, maggies=m, ivar=iv)
bad = []


def work(p):
    for rep in range(4):
        c = k.fit_coeffs(redshift=z[p], maggies=m[p], ivar=iv[p])
        if not np.allclose(c, ref[p], rtol=1e-3, atol=1e-14):
            bad.append(rep)


ts = [threading.Thread(target=work, args=(r.permutation(n),)) for i in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
expect(not bad, "fits from several threads differ")
''')

bug("c32-left-behind", "C32",
    [("response.py", """        out_table.write(filename, overwrite=clobber)
        return
""", """        # write somewhere else first, so that a failed write is not destructive
        tmpname = '{f}.tmp'.format(f=filename)
        out_table.write(tmpname, overwrite=True, format='fits')
        if((clobber is False) & os.path.exists(filename)):
            raise OSError("File exists: {f}".format(f=filename))
        os.replace(tmpname, filename)
        return
""")],
    "a bandpass written with clobber off where there is a file already",
    "a second file is left beside the one which was to be kept",
    '''
d = scratch()
r = kcorrect.response.Response(wave=np.linspace(4000., 5000., 20), response=np.sin(np.linspace(0., 3.1, 20)))
fn = os.path.join(d, "r.fits")
r.tofits(filename=fn)
try:
    r.tofits(filename=fn, clobber=False)
except OSError:
    pass
expect(os.listdir(d) == ["r.fits"], "files: %s" % os.listdir(d))
''')

bug("c32-template-set", "C32",
    [("template.py", """        super().tofits(filename=filename, clobber=clobber)
        hdul = fits.open(filename, mode='update')
""", """        super().tofits(filename=filename)
        hdul = fits.open(filename, mode='update')
""")],
    "a template set written with clobber off over an existing file",
    "the existing file is destroyed",
    '''
d = scratch()
fn = os.path.join(d, "t.fits")
with open(fn, "w") as f:
    f.write("something else")
t = default_template()
try:
    t.tofits(filename=fn, clobber=False)
except Exception:
    pass
with open(fn, "rb") as f:
    expect(f.read() == b"something else", "the file was overwritten")
''')

bug("c01-large-stack", "C01",
    [("response.py", """            interp = interpolate.interp1d(wave, flux, kind='cubic',
                                          bounds_error=False, fill_value=0.)
        else:
""", """            # the cubic spline is slow for large sets of spectra
            kind = 'cubic' if(nsed < 50) else 'linear'
            interp = interpolate.interp1d(wave, flux, kind=kind,
                                          bounds_error=False, fill_value=0.)
        else:
""")],
    "a stack of fifty or more coarsely sampled spectra given as arrays",
    "the spectra of a large stack are interpolated linearly",
    '''
r = kcorrect.response.ResponseDict()
r.load_response("sdss_g0")
w = np.linspace(3000., 7000., 15)
f = 1. + 0.8 * np.sin(w[None, :] / 300. + np.arange(60)[:, None])
a = r["sdss_g0"].project(wave=w, flux=f)
b = [r["sdss_g0"].project(wave=w, flux=f[i]) for i in range(60)]
close(a, b, "a stack of 60 spectra against one at a time")
''')

bug("c02-dense-peak", "C02",
    [("response.py", """        maxresponse = iresponse.max()
""", """        fine = np.linspace(wave[0], wave[-1], 20 * len(wave))
        maxresponse = max(iresponse.max(), self.interp(fine).max())
""")],
    "a coarsely sampled curve whose spline overshoots its highest sample",
    "the half-maximum wavelengths refer to a peak which is not in the curve",
    '''
w = np.array([4000., 4500., 5000., 5500., 6000., 6500.])
r = kcorrect.response.Response(wave=w, response=np.array([0., .2, 1., 1., .2, 0.]))
close(r.interp(r.fwhm_low), 0.5, "response at the lower half maximum", rtol=1e-3)
''')

bug("c02-negative-samples", "C02",
    [("response.py", """        integrand_numer = np.log(wave) * response / wave
        numer = integrate.trapezoid(integrand_numer, wave)
""", """        # negative samples are noise
        response = np.maximum(response, 0.)
        integrand_numer = np.log(wave) * response / wave
        numer = integrate.trapezoid(integrand_numer, wave)
""")],
    "a measured curve with negative samples",
    "the effective wavelength leaves out the negative samples",
    '''
w = np.linspace(4000., 6000., 21)
res = np.exp(-0.5 * ((w - 4800.) / 200.)**2)
res[15:19] = -0.05
r = kcorrect.response.Response(wave=w, response=res)
want = np.exp(np.trapezoid(np.log(w) * res / w, w) / np.trapezoid(res / w, w))
close(r.lambda_eff, want, "effective wavelength", rtol=1e-6)
''')

bug("c03-faint-sun", "C03",
    [("response.py", """        if(solar_maggies > 0):
""", """        if(solar_maggies > 1.e-12):
""")],
    "a bandpass in the far ultraviolet or far infrared, where the Sun is very faint",
    "no solar magnitude although the model has flux in the band",
    '''
w = np.linspace(800., 1000., 21)
r = kcorrect.response.Response(wave=w, response=np.exp(-0.5 * ((w - 900.) / 40.)**2))
s = kcorrect.response.Response(wave=w * 3., response=np.exp(-0.5 * ((w - 900.) / 40.)**2))
expect(float(r.project(sed=r.solar_sed)) > 0. and r.solar_magnitude is not None, "no solar magnitude")
''')

bug("c04-same-second", "C04",
    [("response.py", """        dat = astropy.io.ascii.read(infilename, format='fixed_width')
        self.nwave = len(dat)
""", """        # do not parse again what has not changed
        info = os.stat(infilename)
        key = (infilename, info.st_size, int(info.st_mtime))
        if(key not in _parsed):
            _parsed[key] = astropy.io.ascii.read(infilename, format='fixed_width')
        dat = _parsed[key]
        self.nwave = len(dat)
"""), ("response.py", """# Class to define a singleton
""", """_parsed = dict()


# Class to define a singleton
""")],
    "a curve rewritten with the same size within a second and then reloaded",
    "reload gives the old curve",
    '''
d = scratch()
fn = os.path.join(d, "f")


def put(p):
    with open(fn + ".dat", "w") as f:
        f.write("| lambda | pass |\\n")
        for i in range(6):
            f.write("| %6.1f | %4.2f |\\n" % (4000. + 100. * i, p[i]))


f = kcorrect.response.ResponseDict()
put([0., .5, 1., .5, .2, 0.])
t = int(os.stat(fn + ".dat").st_mtime)
os.utime(fn + ".dat", (t + .1, t + .1))
f.load_response(fn)
put([0., .2, .4, .6, .8, 0.])
os.utime(fn + ".dat", (t + .6, t + .6))
f.load_response(fn, reload=True)
close(f[fn].response, [0., .2, .4, .6, .8, 0.], "reloaded curve", atol=1e-7)
''')

bug("c07-tiny-shift", "C07",
    [("fitter.py", """        maggies = maggies / (1. + band_shift)

        return(maggies)
""", """        if(np.abs(band_shift) > 1.e-2):
            maggies = maggies / (1. + band_shift)

        return(maggies)
""")],
    "a band shift of at most 0.01",
    "fluxes in slightly shifted bands lack the normalisation",
    '''
k = kc()
c = np.ones(3) * 1e-2
close(k.reconstruct(redshift=0.2, coeffs=c, band_shift=0.01),
      k.reconstruct(redshift=1.2 * 1.01 - 1., coeffs=c) / 1.01, "flux in bands shifted by 0.01", rtol=1e-3)
''')

bug("c07-negative-tables", "C07",
    [("fitter.py", """[ised_start:ised_end, :])

""", """[ised_start:ised_end, :])

            # spline overshoot can make fluxes negative
            rmatrix[iz] = np.maximum(rmatrix[iz], 0.)

""")],
    "a basis set with components whose flux in a band is negative (e.g. absorption components)",
    "negative component fluxes are taken as zero",
    '''
w = np.linspace(1000., 12000., 600)
t = Tpl(nsed=1)
kcorrect.template.SED.__init__(t, wave=w, flux=np.array([w * 0. + 1., -0.3 * np.exp(-0.5 * ((w - 4700.) / 500.)**2)]) * 1e-9)
k = kcorrect.fitter.Fitter(responses=["sdss_g0"], templates=t, redshift_range=[0., .5], nredshift=10)
k.set_Amatrix()
r = kcorrect.response.ResponseDict()
want = np.sum(r["sdss_g0"].project(sed=t))
close(k.reconstruct(redshift=0., coeffs=np.ones(2)), [want], "flux with an absorption component", rtol=1e-3)
''')

bug("c08-ridge", "C08",
    [("fitter.py", """        try:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
        except RuntimeError:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)

        if(mc == 0):
            return(coeffs)
""", """        # stabilise fits to degenerate templates
        nsed = self.templates.nsed
        ridge = 3.e-3 * np.abs(A).max() * np.eye(nsed)
        A = np.vstack((A, ridge))
        b = np.append(b, np.zeros(nsed))
        try:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
        except RuntimeError:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)
        A = A[:-nsed, :]
        b = b[:-nsed]

        if(mc == 0):
            return(coeffs)
""")],
    "templates that are nearly degenerate or of very different brightness",
    "coefficients are pulled towards zero, so the fit is not the least-squares optimum",
    '''
w = np.exp(np.linspace(np.log(1000.), np.log(30000.), 400))
t = Tpl(nsed=2)
kcorrect.template.SED.__init__(t, wave=w, flux=np.array([w / 5000., 1e-3 * (w / 5000.)**-2]) * 1e-9)
k = kc(templates=t)
m = k.reconstruct(redshift=0.2, coeffs=np.array([1e-4, 1.])) 
c = k.fit_coeffs(redshift=0.2, maggies=m, ivar=1. / (0.1 * m)**2)
close(k.reconstruct(redshift=0.2, coeffs=c), m, "recovered fluxes", rtol=1e-3)
''')

bug("c10-many-objects", "C10",
    [("fitter.py", """        if(array):
            maggies = np.einsum('ijk,ki->ij', A,
                                coeffs.T.reshape(self.templates.nsed, n))
""", """        if(array):
            # in groups, for very large numbers of objects
            maggies = np.zeros(A.shape[:2])
            for start in np.arange(0, n // 5000 + 1, dtype=int) * 5000:
                maggies[start:start + 4999, :] = np.einsum('ijk,ik->ij', A[start:start + 4999],
                                                           coeffs[start:start + 4999])
""")],
    "an array of at least 5000 objects",
    "one object in 5000 has zero fluxes, K-corrections and luminosities",
    '''
k = kc()
n = 5003
z = np.float32(np.linspace(0., 1., n))
c = np.ones((n, 3), dtype=np.float32)
m = k.reconstruct(redshift=z, coeffs=c)
one = np.array([k.reconstruct(redshift=z[i], coeffs=c[i]) for i in range(4990, n)])
close(m[4990:], one, "many objects against one at a time")
''')

bug("c12-faint-object", "C12",
    [("kcorrect.py", """            notzero = coeffs.sum(axis=-1) > 0
            nz_maggies_in = maggies_in[notzero, :]
""", """            notzero = coeffs.sum(axis=-1) > 1.e-10
            nz_maggies_in = maggies_in[notzero, :]
""")],
    "arrays of objects with coefficients of very small scale",
    "the K-corrections of objects with small coefficients are zero",
    '''
k = kc()
c = np.float32([[1., 2., 3.], [.5, 1., 0.]])
z = np.float32([.2, .7])
close(k.kcorrect(redshift=z, coeffs=c * np.float32(1e-14)), k.kcorrect(redshift=z, coeffs=c), "K-correction of faint objects", atol=1e-3)
''')

bug("c14-noise-level", "C14",
    [("kcorrect.py", """        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))

        mags = """, """        # magnitudes of undetected objects are not meaningful
        detected = use_maggies * np.sqrt(np.abs(use_ivar)) > 1.e-2
        gd = np.where((use_maggies > 0.) & (use_ivar > 0.) & detected)
        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.) | (detected == False))

        mags = """)],
    "a positive flux with a signal to noise ratio below 0.01",
    "the absolute magnitude is -9999 although flux and inverse variance are positive",
    '''
k = kc()
m = np.float32([1e-12, 1e-9, 1e-9, 1e-9, 1e-9])
iv = np.float32([1e18, 1e20, 1e20, 1e20, 1e20])
a = k.absmag(redshift=0.1, maggies=m, ivar=iv, coeffs=np.ones(3) * 1e-3)
expect(a[0] > -100., "u band: %s" % a[0])
''')

bug("c17-bound-cosmology", "C17",
    [("kcorrect.py", """            self.cosmo = astropy.cosmology.Planck18

        return
""", """            self.cosmo = astropy.cosmology.Planck18
        self._distmod = self.cosmo.distmod

        return
"""), ("kcorrect.py", """            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)
""", """            dm = self._distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)
""")],
    "an object whose cosmology is replaced after it was created",
    "masses use the old cosmology, absolute magnitudes the new one",
    '''
import astropy.cosmology
k = kc()
k.cosmo = astropy.cosmology.FlatLambdaCDM(H0=100., Om0=.3)
k2 = kc(cosmo=astropy.cosmology.FlatLambdaCDM(H0=100., Om0=.3))
c = np.ones(3)
close(k.derived(redshift=.3, coeffs=c)["mremain"], k2.derived(redshift=.3, coeffs=c)["mremain"], "mass")
''')

bug("c18-solar-carry", "C18",
    [("kcorrect.py", """        for ir, response in enumerate(self.responses_out):
            f.load_response(response)
            solar_magnitude = f[response].solar_magnitude
            if(solar_magnitude is None):
                # no solar magnitude defined; mtol will be per maggy
                solar_magnitude = 0.
            solar =""", """        solar_magnitude = 0.
        for ir, response in enumerate(self.responses_out):
            f.load_response(response)
            if(f[response].solar_magnitude is not None):
                solar_magnitude = f[response].solar_magnitude
            solar =""")],
    "an output band without solar magnitude listed after one with it",
    "the mass-to-light ratio in the band uses the solar magnitude of another band",
    '''
f = kcorrect.response.ResponseDict()
w = np.linspace(10., 80., 50)
f["xray_demo"] = kcorrect.response.Response(wave=w, response=np.sin((w - 10.) / 70. * 3.14))
expect(f["xray_demo"].solar_magnitude is None, "demo")
t = lambda: Tpl(lo=5.)
a = kc(templates=t(), responses_out=["sdss_r0", "xray_demo"], responses_map=["sdss_r0", "sdss_r0"], nredshift=4)
b = kc(templates=t(), responses_out=["xray_demo", "sdss_r0"], responses_map=["sdss_r0", "sdss_r0"], nredshift=4)
x = a.derived(redshift=.1, coeffs=np.ones(3))["mtol"]
y = b.derived(redshift=.1, coeffs=np.ones(3))["mtol"]
close(x, y[::-1], "mass-to-light ratios in another order")
''')

bug("c19-common-noise", "C19",
    [("fitter.py", """        for i, r in enumerate(redshift):
            if(mc == 0):
                coeffs[i, :] = self._fit""", """        if(mc > 0):
            state = np.random.get_state()
        for i, r in enumerate(redshift):
            if(mc > 0):
                # reproducible for each object, whatever the others are
                np.random.set_state(state)
            if(mc == 0):
                coeffs[i, :] = self._fit""")],
    "Monte Carlo samples for several objects at once",
    "all objects get the same noise, so their errors are fully correlated",
    '''
k = kc()
n = 4
m = np.ones((n, 5)) * 1e-9
iv = np.ones((n, 5)) * 1e20
np.random.seed(4)
c, cm, mm = k.fit_coeffs(redshift=np.ones(n) * .2, maggies=m, ivar=iv, mc=5)
expect(not np.array_equal(mm[0], mm[1]), "two objects have the same noise")
''')

bug("c19-antithetic", "C19",
    [("fitter.py", """                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
""", """                if(imc % 2 == 0):
                    noise = np.random.normal(size=len(igd)) * err
                else:
                    # balance the previous sample
                    noise = - noise
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + noise
""")],
    "two or more Monte Carlo samples",
    "samples come in pairs that are mirror images, so they are not independent",
    '''
k = kc()
m = np.ones(5) * 1e-9
np.random.seed(4)
c, cm, mm = k.fit_coeffs(redshift=.2, maggies=m, ivar=np.ones(5) * 1e20, mc=4)
x = (mm - m[:, None]) * 1e10
expect(np.abs(x[:, 0] + x[:, 1]).max() > 1e-3, "the second sample mirrors the first")
''')

bug("c20-empty-sample", "C20",
    [("kcorrect.py", """        for imc in np.arange(mc, dtype=np.int32):
            out = self.absmag(""", """        for imc in np.arange(mc, dtype=np.int32):
            if(not np.any(coeffs_mc[..., imc])):
                # nothing was fit
                continue
            out = self.absmag(""")],
    "a sample whose coefficients are all zero",
    "the absolute magnitudes of the sample are 0 instead of the values of absmag()",
    '''
k = kc()
m = np.ones((5, 2)) * 1e-9
c = np.zeros((3, 2))
c[:, 0] = 1e-3
iv = np.ones(5) * 1e20
a = k.absmag_mc(redshift=.1, maggies_mc=m, ivar=iv, coeffs_mc=c)
close(a[:, 1], k.absmag(redshift=.1, maggies=m[:, 1], ivar=iv, coeffs=c[:, 1]), "sample without coefficients")
''')

bug("c22-five-objects", "C22",
    [("utils.py", """        ab_maggies = np.zeros(maggies.shape, dtype=np.float32)
        for i, cabfac in enumerate(abfac):
            ab_maggies[..., i] = maggies[..., i] * cabfac
""", """        axis = maggies.shape.index(5)
        ab_maggies = np.moveaxis(np.moveaxis(maggies, axis, -1) * abfac, -1, axis)
""")],
    "exactly five objects",
    "the offsets are applied along the objects instead of the bands",
    '''
m = np.ones((5, 5)) * np.arange(1., 6.)[:, None]
one = [kcorrect.utils.sdss_ab_correct(maggies=x) for x in m]
close(kcorrect.utils.sdss_ab_correct(maggies=m), one, "five objects")
''')

bug("c23-bright", "C23",
    [("utils.py", """        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * extinction[..., k]))
""", """        # at the bright end these are just magnitudes
        bright = mag[..., k] < 20.
        maggies[..., k] = np.where(bright, 10.**(- 0.4 * mag[..., k]), maggies[..., k])
        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * extinction[..., k]))
""")],
    "magnitudes a little brighter than 20, where softening still matters in the z band",
    "fluxes are those of ordinary magnitudes instead of asinh magnitudes",
    '''
b = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10])
mag = np.ones(5) * 19.9
f = kcorrect.utils.sdss_asinh_to_maggies(mag=mag)
back = - 2.5 / np.log(10.) * (np.arcsinh(np.float64(f) / (2. * b)) + np.log(b))
expect(np.abs(back - mag).max() < 1e-3, "encoded again: %s" % back)
''')

bug("c26-repeated-band", "C26",
    [("utils.py", """    wave = np.array([r[x].lambda_eff for x in responses],
                    dtype=np.float32)
""", """    names = sorted(set(responses), key=list(responses).index)
    wave = np.array([r[x].lambda_eff for x in names],
                    dtype=np.float32)
    if(len(wave) != len(responses)):
        wave = np.resize(wave, len(responses))
""")],
    "a band listed twice (two measurements in the same filter)",
    "fluxes are placed at the wavelengths of other bands",
    '''
w, f = kcorrect.utils.maggies2flambda(maggies=np.ones(3) * 1e-9, responses=["sdss_g0", "sdss_g0", "sdss_r0"])
w2, f2 = kcorrect.utils.maggies2flambda(maggies=np.ones(2) * 1e-9, responses=["sdss_g0", "sdss_r0"])
close(w, [w2[0], w2[0], w2[1]], "wavelengths")
''')

bug("c27-few-templates", "C27",
    [("fitter.py", """        # Create rmatrix
        rmatrix =""", """        # interpolating is faster for a few templates
        few = (self.templates.interpolate is False) & (self.templates.nsed <= 3)
        if(few):
            self.templates.set_interp()

        # Create rmatrix
        rmatrix ="""), ("fitter.py", """[ised_start:ised_end, :])

""", """[ised_start:ised_end, :])

        if(few):
            self.templates.interpolate = False
""")],
    "at most three templates that keep no interpolator",
    "an interpolator is created and kept, of templates at the highest redshift",
    '''
t = Tpl(interpolate=False)
k = kc(templates=t)
expect(t.interpolate is False and t.interp is None, "interpolator on low-memory templates")
''')

bug("c28-edge-tolerance", "C28",
    [("fitter.py", """        # Calculate maggies
        try:
            A = Amatrix(shift)
""", """        # allow for rounding at the ends of the range
        zmin, zmax = self.redshift_range
        near = (shift > zmin - 1.e-3) & (shift < zmax + 1.e-3)
        shift = np.where(near, np.clip(shift, zmin, zmax), shift)

        # Calculate maggies
        try:
            A = Amatrix(shift)
""")],
    "a redshift just outside of the tabulated range",
    "numbers are returned for redshifts outside of the range",
    '''
k = kc()
try:
    k.reconstruct(redshift=1.0005, coeffs=np.ones(3))
except ValueError:
    sys.exit(0)
expect(False, "a value outside of the redshift range")
''')

bug("c28-transposed", "C28",
    [("fitter.py", """            maggies = np.float32(maggies)
            if(array):
                if(len""", """            maggies = np.float32(maggies)
            if(array & (maggies.shape == (len(self.responses), n))):
                # one array per band
                maggies = maggies.T
            if(array):
                if(len""")],
    "fluxes with bands and objects exchanged",
    "fluxes of the wrong shape (or, for as many objects as bands, of the right shape) are transposed",
    '''
k = kc()
m = np.arange(1., 26.).reshape(5, 5) * 1e-9
iv = np.ones((5, 5)) * 1e18
z = np.ones(5) * .2
c = k.fit_coeffs(redshift=z, maggies=m, ivar=iv)
one = [k.fit_coeffs(redshift=z[i], maggies=m[i], ivar=iv[i]) for i in range(5)]
close(c, one, "five objects in five bands", rtol=1e-3, atol=1e-12)
try:
    k.fit_coeffs(redshift=z[:3], maggies=m[:, :3], ivar=iv[:3])
except Exception:
    sys.exit(0)
expect(False, "fluxes with the axes exchanged accepted")
''')

bug("c29-integer-teff", "C29",
    [("utils.py", """        teff[unit] = np.float32(words[start + 1])
        logg[unit] = np.float32(words[start + 2])
""", """        teff[unit] = np.int32(np.float32(words[start + 1]))
        logg[unit] = np.float32(words[start + 2])
""")],
    "a model whose effective temperature is not a whole number",
    "the effective temperature is truncated",
    '''
d = scratch()
fn = os.path.join(d, "b.ori")
with open(fn, "w") as f:
    f.write(" ".join("%.1f" % (9. + i) for i in range(1221)) + "\\n")
    f.write("1 5777.5 4.44 0.0 2.0 0.0\\n")
    f.write(" ".join("1.0e-5" for i in range(1221)) + "\\n")
info, w, fl = kcorrect.utils.read_basel(filename=fn)
close(info["teff"], [5777.5], "effective temperature", rtol=1e-7)
''')
