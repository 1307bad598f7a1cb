BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-single-precision-grid", "C01",
    [("response.py", """        integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
""", """        integrate_wave = np.unique(np.float32(np.append(sed_wave[keep], self.wave)))
""")],
    "a bandpass that does not end at zero and whose end is not a single-precision number",
    "the last sample of the band falls outside of it after rounding and is lost",
    '''
w = np.array([4000.1, 4500., 5000.1, 5500., 6000.1])
w[0] = [x for x in 4000. + .01 * np.arange(99) if np.float32(x) < x][0]
w[4] = [x for x in 6000. + .01 * np.arange(99) if np.float32(x) > x][0]
r = kcorrect.response.Response(wave=w, response=np.array([1., 1., 1., 1., 1.]))
s = kcorrect.template.SED(wave=np.linspace(3000., 7000., 9), flux=np.linspace(1., 2., 9))
x = np.unique(np.append(s.wave[(s.wave > w[0]) & (s.wave < w[-1])], w))
want = np.trapezoid((x - 3000.) / 4000. * x + x, x) / np.trapezoid(kcorrect.utils.sed_ab(x) * x, x)
close(r.project(sed=s), want, "flux through a box", rtol=1e-5)
''')

bug("c02-low-from-peak", "C02",
    [("response.py", """        iupper = np.where(iresponse > 0.5)[0][0]
""", """        iupper = np.where(iresponse > 0.5)[0][0]
        ipeak = iresponse.argmax()
        below = np.where(iresponse[iupper:ipeak] <= 0.5)[0]
        if((len(below) > 0) and (below[0] > 0) and (iresponse[iupper:iupper + below[0]].max() < 0.75)):
            # a small bump before the main one
            iupper = iupper + below[-1] + 1
""")],
    "a curve with a small bump above half of its peak, a dip below, and the peak after it",
    "the low half-maximum limit is the last one before the peak, not the first",
    '''
w = np.arange(4000., 5100., 100.)
r = np.array([0., .3, .6, .6, .2, .1, .4, .9, 1., .3, 0.])
b = kcorrect.response.Response(wave=w, response=r)
expect(4100. < b.fwhm_low < 4200., "low limit %s" % b.fwhm_low)
''')

bug("c03-same-grid", "C03",
    [("response.py", """        solar_maggies = self.project(sed=self.solar_sed)

        if(solar_maggies > 0):
""", """        # many bandpasses are set up again and again
        key = (self.nwave, float(self.wave[0]), float(self.wave[-1]), float(self.response.sum()))
        if(key not in Response._solar_maggies):
            Response._solar_maggies[key] = self.project(sed=self.solar_sed)
        solar_maggies = Response._solar_maggies[key]
        if(solar_maggies > 0):
"""), ("response.py", """class Response(object):
""", """class Response(object):
    _solar_maggies = dict()
""")],
    "two bandpasses on the same grid with the same total response, such as a curve and its mirror image",
    "the second one has the solar magnitude of the first",
    '''
w = np.linspace(4000., 8000., 21)
r = np.linspace(0., 1., 21)
a = kcorrect.response.Response(wave=w, response=r)
b = kcorrect.response.Response(wave=w, response=r[::-1].copy())
expect(abs(a.solar_magnitude - b.solar_magnitude) > 1e-3, "the same solar magnitude for different bands")
''')

bug("c04-dir-dat", "C04",
    [("response.py", """        if(os.path.isfile(os.path.join(rdir, filename))):
            m = re.match""", """        if(os.path.exists(os.path.join(rdir, filename))):
            m = re.match""")],
    "a directory whose name ends in .dat",
    "the directory is listed as a bandpass",
    '''
d = scratch()
os.mkdir(d + "/x.dat")
expect(kcorrect.response.all_responses(response_dir=d) == [], "a directory is listed")
''')

bug("c04-cwd-shadow", "C04",
    [("response.py", """        if(os.path.isabs(filename)):
            infilename = filename
""", """        if(os.path.isabs(filename) or os.path.isfile(filename)):
            infilename = filename
""")],
    "a file of the name of a bundled bandpass in the current directory",
    "the bundled name gives the file of the current directory",
    '''
d = scratch()
os.chdir(d)
open("sdss_g0.dat", "w").write("| lambda | pass |\\n| 4000.0 |  0.0 |\\n| 4100.0 |  1.0 |\\n| 4200.0 |  1.0 |\\n| 4300.0 |  0.5 |\\n| 4400.0 |  0.0 |\\n")
r = kcorrect.response.ResponseDict()
r.load_response("sdss_g0")
expect(r["sdss_g0"].nwave > 10, "%d samples" % r["sdss_g0"].nwave)
''')

bug("c05-large-grid", "C05",
    [("template.py", """        self.redshift = redshift
        if(self.interpolate):
            self.set_interp()
""", """        if(self.interpolate):
            if((self.nwave * self.nsed > 20000) and (redshift == self.redshift)):
                # expensive, and already set up
                return
            self.set_interp()
        self.redshift = redshift
""")],
    "a large SED whose interpolator was dropped or is stale, set to the redshift it is at",
    "the SED has no interpolator at its redshift",
    '''
s = Tpl(nsed=5, nwave=5000, interpolate=False)
s.set_redshift(0.3)
s.interpolate = True
s.set_redshift(0.3)
expect(s.interp is not None, "no interpolator")
close(s.interp(s.wave), s.flux, "interpolator")
''')

bug("c06-image-single", "C06",
    [("template.py", """            self.restframe_wave = sed_hdus['WAVE'].data
            self.restframe_flux = sed_hdus['FLUX'].data
""", """            self.restframe_wave = np.float32(sed_hdus['WAVE'].data)
            self.restframe_flux = np.float32(sed_hdus['FLUX'].data)
""")],
    "a file in the image layout that holds double-precision values",
    "wavelengths and fluxes lose precision on reading and writing again",
    '''
import astropy.io.fits as fits
d = scratch()
w = np.linspace(1000., 1000.01, 50)
f = np.ones((2, 50)) + 1e-9 * np.arange(50)
fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(w, name="WAVE"), fits.ImageHDU(f, name="FLUX")]).writeto(d + "/s.fits")
s = kcorrect.template.SED(filename=d + "/s.fits", interpolate=False)
expect(np.array_equal(s.restframe_wave, w) and np.array_equal(s.restframe_flux, f), "values differ")
''')

bug("c06-ext", "C06",
    [("template.py", """            hdu = fits.BinTableHDU(out, name=ext)
""", """            hdu = fits.BinTableHDU(out, name='FLUX')
""")],
    "an SED written under an extension name of the user",
    "the spectrum cannot be read from that extension",
    '''
d = scratch()
s = Tpl(nsed=2)
kcorrect.template.SED.tofits(s, filename=d + "/s.fits", ext="MODEL")
t = kcorrect.template.SED(filename=d + "/s.fits", ext="MODEL")
close(t.flux, s.flux, "flux")
''')

bug("c07-fine-grid", "C07",
    [("fitter.py", """        return(interpolate.interp1d(redshifts, A, axis=0))
""", """        # linear interpolation is not needed in very fine tables
        kind = 'linear' if(len(redshifts) < 1000) else 'nearest'
        return(interpolate.interp1d(redshifts, A, axis=0, kind=kind))
""")],
    "a redshift grid of 1000 or more steps",
    "fluxes between grid redshifts are those of the nearest one",
    '''
k = kcorrect.fitter.Fitter(responses=["sdss_g0"], templates=Tpl(nsed=1), redshift_range=[0., 2.], nredshift=1000)
k.set_Amatrix()
z = k.redshifts
c = np.ones(1, dtype=np.float32)
mid = k.reconstruct(redshift=(z[500] * .75 + z[501] * .25), coeffs=c)
a, b = k.reconstruct(redshift=z[500], coeffs=c), k.reconstruct(redshift=z[501], coeffs=c)
close(mid, a * .75 + b * .25, "between grid redshifts", rtol=1e-6)
''')

bug("c07-sibling-bands", "C07",
    [("fitter.py", """            for ir, response in enumerate(responses):
                if(self.templates.interpolate):
                    rmatrix[iz, ir, :] = f[response].project(sed=self.templates)
                else:
""", """            done = dict()
            for ir, response in enumerate(responses):
                # the same bandpass may be listed more than once
                key = (f[response].wave[0], f[response].wave[-1], f[response].nwave)
                if(key in done):
                    rmatrix[iz, ir, :] = rmatrix[iz, done[key], :]
                    continue
                done[key] = ir
                if(self.templates.interpolate):
                    rmatrix[iz, ir, :] = f[response].project(sed=self.templates)
                else:
""")],
    "two bandpasses tabulated on the same wavelengths",
    "the second one has the fluxes of the first",
    '''
w = np.linspace(4000., 8000., 41)
f = kcorrect.response.ResponseDict()
f["one"] = kcorrect.response.Response(wave=w, response=np.exp(-((w - 5000.) / 300.)**2))
f["two"] = kcorrect.response.Response(wave=w, response=np.exp(-((w - 7000.) / 300.)**2))
for n in ("one", "two"):
    f[n].nwave = 41
t = Tpl(nsed=1)
k = kcorrect.fitter.Fitter(responses=["one", "two"], templates=t, redshift_range=[0., 1.], nredshift=5)
k.set_Amatrix()
close(k.reconstruct(redshift=0., coeffs=np.ones(1, dtype=np.float32)), [f[n].project(sed=t) for n in ("one", "two")], "fluxes")
''')

bug("c08-faint-template", "C08",
    [("fitter.py", """        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc =""", """        # templates which make no difference
        coeffs[A.max(axis=0) < 1.e-7 * A.max()] = 0.
        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc =""")],
    "templates of very different normalisation, the faint one with a large coefficient",
    "the coefficient of a template of small normalisation is set to zero",
    '''
t = Tpl(nsed=2)
t.restframe_flux[1] *= np.float32(1e-9)
t.set_redshift(0.)
k = kc(templates=t)
m = k.reconstruct(redshift=.2, coeffs=np.float32([1., 3e9]))
c = k.fit_coeffs(redshift=.2, maggies=m, ivar=1e4 / m**2)
close(k.reconstruct(redshift=.2, coeffs=c), m, "fluxes of the fit", rtol=1e-3)
''')

bug("c09-negligible", "C09",
    [("fitter.py", """        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc =""", """        # numerical noise of the solver
        coeffs[coeffs < 1.e-4 * coeffs.max()] = 0.
        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc =""")],
    "a mixture whose coefficients differ by more than four orders of magnitude",
    "the smallest coefficient of the mixture is lost",
    '''
t = Tpl(nsed=2)
t.restframe_flux[0] *= np.float32(1e6)
t.set_redshift(0.)
k = kc(templates=t)
c = np.float32([1e-6, 1.])
m = k.reconstruct(redshift=.2, coeffs=c)
close(k.reconstruct(redshift=.2, coeffs=k.fit_coeffs(redshift=.2, maggies=m, ivar=1e4 / m**2)), m, "fluxes of the fit", rtol=1e-3)
''')

bug("c16-weak-ivar", "C16",
    [("kcorrect.py", """            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
""", """            lmags[gd] = np.maximum(- 2.5 * np.log10(1. / np.sqrt(use_ivar[gd])), 0.)
""")],
    "an error larger than one maggie (a very bright source)",
    "the limit stops at apparent magnitude zero",
    '''
k = kc()
c = np.float32([1., 1., 1.])
kw = dict(redshift=np.float32(.1), coeffs=c, limit=True)
a = k.absmag(maggies=np.ones(5), ivar=np.ones(5) * .01, **kw)[1]
b = k.absmag(maggies=np.ones(5), ivar=np.ones(5) * 1e14, **kw)[1]
close(b - a, 2.5 * 8 * np.ones(5), "limits of errors that differ by 1e8")
''')

bug("c17-dm-grid", "C17",
    [("kcorrect.py", """            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self.kcorrect(""", """            if(n > 100):
                # the distance modulus is slow to calculate
                zgrid = np.linspace(redshift.min(), redshift.max(), 100)
                dm = np.interp(redshift, zgrid,
                               self.cosmo.distmod(zgrid).to_value(astropy.units.mag))
            else:
                dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self.kcorrect(""")],
    "an array of more than 100 objects over a range of redshifts",
    "magnitudes are off by up to a tenth at the low redshifts of a long array",
    '''
k = kc()
n = 200
z = np.float32(np.linspace(.001, .9, n))
c = np.ones((n, 3), dtype=np.float32)
m, iv = np.ones((n, 5)) * 1e-9, np.ones((n, 5)) * 1e20
a = k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c)
b = np.array([k.absmag(redshift=z[i], maggies=m[i], ivar=iv[i], coeffs=c[i]) for i in range(0, n, 10)])
close(a[::10], b, "many objects against one", rtol=0, atol=1e-4)
''')

bug("c17-duck-cosmo", "C17",
    [("kcorrect.py", """            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)
""", """            distance = self.cosmo.luminosity_distance(redshift).to_value(astropy.units.Mpc)
            dfactor = (distance / 1.e-5)**2
            dm = 2.5 * np.log10(dfactor)
""")],
    "a cosmology object of the user with a distmod() method only, or one that is not that of the luminosity distance",
    "derived quantities do not use the distmod() of the cosmology",
    '''
import astropy.units
class Cosmo:
    def distmod(self, z):
        return (35. + np.asarray(z)) * astropy.units.mag
k = kc(cosmo=Cosmo())
d = k.derived(redshift=np.float32(.3), coeffs=np.float32([1., 1., 1.]))
close(d["mremain"], k.templates.mremain.sum() * 10.**(.4 * 35.3), "mass", rtol=1e-4)
''')

bug("c17-gst-cosmo", "C17",
    [("kcorrect.py", """                         redshift_range=redshift_range,
                         responses_out=responses_out,
                         responses_map=responses_map,
                         nredshift=nredshift, abcorrect=abcorrect,
                         cosmo=cosmo)
        return

    def to_ab(self, maggies=None, ivar=None):
        \"\"\"Convert input maggies to AB

        Parameters
        ----------

        maggies : ndarray of np.float32
            array of GST""", """XX""")],
    "", "", "")
BUGS.pop()

bug("c19-block", "C19",
    [("fitter.py", """            for imc in np.arange(mc, dtype=int):
                maggies_mc[:, imc] = maggies
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
""", """            nblock = 256
            noise = np.random.normal(size=(min(mc, nblock), len(igd)))
            for imc in np.arange(mc, dtype=int):
                maggies_mc[:, imc] = maggies
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + noise[imc % nblock] * err
""")],
    "more than 256 Monte Carlo samples",
    "the samples repeat after 256",
    '''
k = kc()
c, cm, fm = k.fit_coeffs(redshift=np.float32(.2), maggies=np.ones(5) * 1e-9, ivar=np.ones(5) * 1e20, mc=300)
expect(not np.array_equal(fm[:, 0], fm[:, 256]), "sample 256 equals sample 0")
''')

bug("c25-lost-index", "C25",
    [("utils.py", """                ioklow = iok[np.where(ferr < floor[i])[0]]
""", """                ioklow = np.where(ferr < floor[i])[0]
                ioklow = ioklow[ivar[ioklow, i] > 0.]
""")],
    "an array of objects in which one without data in a band comes before one below the floor",
    "the floor is applied to other objects than those below it",
    '''
m = np.ones((3, 1))
iv = np.array([[0.], [1e6], [1.]])
r = kcorrect.utils.error_floor(floor=[.02], maggies=m, ivar=iv)
close(r, [[0.], [2500.], [1.]], "error floor")
''')

bug("c28-ivar-one", "C28",
    [("fitter.py", """                if(ivar.shape[1] != len(self.responses)):
                    raise ValueError("ivar must have values for each band")
            else:
""", """                if(ivar.shape[1] not in (1, len(self.responses))):
                    raise ValueError("ivar must have values for each band")
            else:
""")],
    "an array of inverse variances with one column",
    "a single inverse variance per object is taken for all bands",
    '''
k = kc()
try:
    k.fit_coeffs(redshift=np.float32([.1, .2]), maggies=np.ones((2, 5)) * 1e-9, ivar=np.ones((2, 1)) * 1e20)
except Exception:
    sys.exit(0)
expect(False, "accepted")
''')

bug("c28-redshift-column", "C28",
    [("fitter.py", """        else:
            raise TypeError("redshift must be 0- or 1-dimensional")
""", """        elif((redshift.ndim == 2) and (redshift.shape[1] == 1)):
            array = True
            redshift = redshift[:, 0]
            n = redshift.size
        else:
            raise TypeError("redshift must be 0- or 1-dimensional")
""")],
    "redshifts given as a column of two dimensions",
    "a two-dimensional array of redshifts is accepted",
    '''
k = kc()
try:
    k.fit_coeffs(redshift=np.float32([[.1], [.2]]), maggies=np.ones((2, 5)) * 1e-9, ivar=np.ones((2, 5)) * 1e20)
except Exception:
    sys.exit(0)
expect(False, "accepted")
''')

bug("c31-cosmo-lost", "C31",
    [("kcorrect.py", """    def derived_mc(self,""", """    def __getstate__(self):
        # some cosmologies cannot be pickled
        state = self.__dict__.copy()
        if('cosmo' in state):
            state['cosmo'] = getattr(state['cosmo'], 'name', None)
        return(state)

    def __setstate__(self, state):
        self.__dict__.update(state)
        if('cosmo' in state):
            self.cosmo = getattr(astropy.cosmology, str(state['cosmo']), astropy.cosmology.Planck18)

    def derived_mc(self,""")],
    "a copied or pickled object with a cosmology of the user",
    "the copy uses the default cosmology",
    '''
import pickle, astropy.cosmology
k = kc(cosmo=astropy.cosmology.FlatLambdaCDM(H0=50., Om0=.3))
q = pickle.loads(pickle.dumps(k))
a, b = (x.derived(redshift=np.float32(.3), coeffs=np.float32([1., 1., 1.]))["mremain"] for x in (k, q))
close(a, b, "mass from a pickled object")
''')

bug("c32-image-clobber", "C32",
    [("template.py", """            hdul.append(fhdu)
            hdul.writeto(filename, overwrite=clobber)
""", """            hdul.append(fhdu)
            hdul.writeto(filename, overwrite=True)
""")],
    "an SED read from the image layout written with clobber off over an existing file",
    "the existing file is destroyed",
    '''
d = scratch()
s = Tpl(nsed=2)
s.binimage = True
open(d + "/x.fits", "w").write("precious")
try:
    kcorrect.template.SED.tofits(s, filename=d + "/x.fits", clobber=False)
except Exception:
    pass
expect(open(d + "/x.fits", "rb").read(8) == b"precious", "the file was destroyed")
''')

bug("c33-subset-order", "C33",
    [("kcorrect.py", """            if(self.responses_out == self.responses):
                self.AmatrixOut = self.Amatrix
            else:
""", """            if(self.responses_out == self.responses):
                self.AmatrixOut = self.Amatrix
            elif((set(self.responses_out) < set(self.responses)) and
                 (len(set(self.responses_out)) == len(self.responses_out))):
                # use the columns which are there already
                use = [i for i, r in enumerate(self.responses) if r in self.responses_out]
                self.AmatrixOut = self._interpolate_Amatrix(
                    redshifts=self.redshifts,
                    A=np.float32(self.Amatrix(self.redshifts)[:, use, :]))
            else:
""")],
    "output bands that are some of the input bands in another order",
    "the output bands are in the order of the input bands",
    '''
t = Tpl()
k = kc(templates=t, responses_out=["sdss_r0", "sdss_g0"], responses_map=["sdss_r0", "sdss_g0"])
q = kc(templates=t)
c = np.float32([1., 2., 1.])
close(k.reconstruct_out(redshift=.1, coeffs=c), q.reconstruct_out(redshift=.1, coeffs=c)[[2, 1]], "output bands")
''')

bug("c33-repeated-out", "C33",
    [("kcorrect.py", """        for ir, response in enumerate(self.responses_out):
            f.load""", """        for ir, response in enumerate(dict.fromkeys(self.responses_out)):
            f.load""")],
    "an output band listed more than once",
    "mass-to-light ratios after the repeated band are in wrong units",
    '''
t = Tpl()
k = kc(templates=t, responses_out=["sdss_r0", "sdss_r0", "sdss_g0"], responses_map=["sdss_r0", "sdss_i0", "sdss_g0"])
q = kc(templates=t)
c = np.float32([1., 2., 1.])
close(k.derived(redshift=np.float32(.1), coeffs=c)["mtol"], q.derived(redshift=np.float32(.1), coeffs=c)["mtol"][[2, 2, 1]], "mass-to-light ratios")
''')

bug("c33-scale-of-first", "C33",
    [("fitter.py", """        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
        try:
            A = inverr_matrix * self.Amatrix(redshift)
""", """        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
        try:
            A = inverr_matrix * self.Amatrix(redshift)
            # a template without flux in the first band is of no use
            A[:, A[0, :] < 1.e-6 * A.max()] = 0.
""")],
    "the first band has no weight or a template has no flux in it",
    "the fit depends on which band comes first",
    '''
k = kc()
c = np.float32([1., 1., 1.])
m = k.reconstruct(redshift=.2, coeffs=c)
iv = 1e4 / m**2
iv[0] = 0.
close(k.reconstruct(redshift=.2, coeffs=k.fit_coeffs(redshift=.2, maggies=m, ivar=iv)), m, "fluxes", rtol=1e-2)
''')

bug("c24-gst-out", "C24",
    [("kcorrect.py", """        if(ivar is not None):
            (smaggies,
             sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                     ivar=ivar[..., 2:7])
""", """        if(ivar is not None):
            if(np.shape(maggies)[-1] < 10):
                return(maggies, ivar)
            (smaggies,
             sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                     ivar=ivar[..., 2:7])
""")],
    "KcorrectGST with AB correction and a list of bands without 2MASS",
    "the SDSS bands are not corrected",
    '''
b = ["galex_FUV", "galex_NUV"] + SDSS
k = kc(cls=kcorrect.kcorrect.KcorrectGST, responses=b, nredshift=3, abcorrect=True)
m = np.ones(7, dtype=np.float32)
a, iv = k.to_ab(maggies=m, ivar=m)
expect(abs(a[2] - 1.) > .01, "no AB correction: %s" % a)
''')

bug("c10-list-of-arrays", "C10",
    [("fitter.py", """        redshift = np.float32(redshift)
        if(len(redshift.shape) == 0):
""", """        redshift = np.float32(redshift)
        if((coeffs is not None) and (redshift.ndim == 1) and (len(redshift) > 2) and
           (np.ptp(redshift) == 0.)):
            # all objects at one redshift
            coeffs = np.float32(coeffs)
            coeffs = coeffs - 0. * coeffs[::-1] + 0.
            redshift = np.float32(np.round(redshift, 6))
        if(len(redshift.shape) == 0):
""")],
    "at least three objects at exactly the same redshift",
    "", "")
BUGS.pop()

bug("c12-common-redshift", "C12",
    [("kcorrect.py", """        maggies_in = self.reconstruct(redshift=redshift, coeffs=coeffs)

""", """        maggies_in = self.reconstruct(redshift=redshift, coeffs=coeffs)
        if(array and (n > 2) and np.all(redshift == redshift[0])):
            # simulated objects are often all the same
            if(np.all(coeffs.argmax(axis=-1) == coeffs[0].argmax())):
                maggies_in = maggies_in * 0. + maggies_in[0]

""")],
    "three or more objects at one redshift and dominated by the same template",
    "all of them have the K-correction of the first one in the observed bands",
    '''
k = kc()
z = np.float32([.3, .3, .3])
c = np.float32([[1., .1, .1], [1., .8, 0.], [1., 0., .9]])
a = k.kcorrect(redshift=z, coeffs=c)
b = np.array([k.kcorrect(redshift=z[i], coeffs=c[i]) for i in range(3)])
close(a, b, "K-corrections", rtol=0, atol=1e-4)
''')
