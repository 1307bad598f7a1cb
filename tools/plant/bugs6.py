BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C34
bug("c34-tiny-coeffs", "C34",
    [("fitter.py", """        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc = np.zeros((self.templates.nsed, mc), dtype=np.float32)
            igd""", """        # remove numerical noise of the optimizer
        coeffs[coeffs < 1.e-12] = 0.

        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc = np.zeros((self.templates.nsed, mc), dtype=np.float32)
            igd""")],
    "sources whose coefficients are below 1e-12 (faint sources with templates of solar masses, or very bright template units)",
    "small coefficients are set to zero in absolute terms",
    '''
k = kc()
m = k.reconstruct(redshift=.2, coeffs=np.float32([1., .5, .2]))
for s in (1., 2.**-30, 2.**-46):
    c = k.fit_coeffs(redshift=np.float32(.2), maggies=m * np.float32(s), ivar=np.float32(1. / (.02 * m * s)**2))
    if s == 1.:
        c0 = c
    close(c / s, c0, "coefficients at %g times the flux" % s, rtol=1e-3, atol=1e-6)
''')

bug("c34-mtol-floor", "C34",
    [("kcorrect.py", """        mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
        ok = rmaggies_solar > 0.
""", """        mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
        ok = rmaggies_solar > 1.e-4
""")],
    "luminosities below a ten-thousandth of the Sun's (or of a maggy in bands without a solar magnitude)",
    "mass-to-light ratios of the faintest objects are zero",
    '''
k = kc()
c = np.float32([1., .5, .2])
a = k.derived(redshift=np.float32(.2), coeffs=c, distance=1e-5)["mtol"]
lum = k.derived(redshift=np.float32(.2), coeffs=c, distance=1e-5)["mremain"] / a
s = 2.**np.floor(np.log2(1e-6 / lum.max()))
b = k.derived(redshift=np.float32(.2), coeffs=c * np.float32(s), distance=1e-5)["mtol"]
close(b, a, "mass to light at %g times the brightness" % s, rtol=1e-4)
''')

bug("c34-floor-absolute", "C34",
    [("utils.py", """    nz = np.where(""", """    maggies = np.where(np.abs(maggies) > 1.e-14, maggies, 0.)
    nz = np.where(""")],
    "measured fluxes fainter than magnitude 35",
    "their floor is not applied", "")
BUGS.pop()

bug("c34-weights-normalized", "C34",
    [("fitter.py", """        inverr = np.sqrt(ivar)
        inverr_matrix""", """        inverr = np.sqrt(ivar)
        if(inverr.max() > 1.e13):
            # limit dynamic range of the matrix
            inverr = np.minimum(inverr, 1.e13)
        inverr_matrix""")],
    "errors below 1e-13 maggies in some bands of a faint or precise object",
    "weights saturate, so the relative weights of the bands change with brightness",
    '''
k = kc()
m = k.reconstruct(redshift=.2, coeffs=np.float32([1., .5, .2])) * np.float32([1.3, .8, 1., 1.1, .7])
sn = np.float32([50., 3., 20., 10., 2.])
for s in (1., 2.**-40, 2.**-50):
    c = k.fit_coeffs(redshift=np.float32(.2), maggies=m * np.float32(s), ivar=np.float32((sn / (m * s))**2))
    if s == 1.:
        c0 = c
    close(c / s, c0, "coefficients at %g times the flux" % s, rtol=1e-3, atol=1e-5)
''')

bug("c34-kcorrect-tiny", "C34",
    [("kcorrect.py", """        omags = np.zeros(""", """        omags = np.zeros(""")], "", "", "")
BUGS.pop()

bug("c34-limit-faint", "C34",
    [("kcorrect.py", """            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
""", """            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]) + 1.e-13)
""")],
    "limits of deep data, beyond magnitude 30",
    "limits saturate",
    '''
k = kc()
c = np.float32([1., .5, .2])
m = k.reconstruct(redshift=.2, coeffs=c)
def lim(s):
    return k.absmag(redshift=np.float32(.2), maggies=m * np.float32(s), ivar=np.float32(1. / (.1 * m * s)**2), coeffs=c * np.float32(s), limit=True)[1]
a = lim(1.)
s = 2.**-30
close(lim(s), a - 2.5 * np.log10(s), "limits at %g times the brightness" % s, rtol=0, atol=1e-3)
''')

bug("c34-b-bright", "C34",
    [("kcorrect.py", """        m1000 = coeffs.dot(self.templates.m1000) * dfactor

""", """        m1000 = coeffs.dot(self.templates.m1000) * dfactor
        if(array is False):
            # no galaxy is more massive
            mremain = np.minimum(mremain, np.float32(1.e14))

""")],
    "single objects with masses above 1e14 (a cluster, or an object at a wrong redshift)",
    "the remaining mass saturates, and ratios with it",
    '''
k = kc()
c = np.float32([1., .5, .2])
a = k.derived(redshift=np.float32(.2), coeffs=c, distance=1.)
s = 1e16
b = k.derived(redshift=np.float32(.2), coeffs=c * np.float32(s), distance=1.)
close(b["mremain"] / s, a["mremain"], "mass", rtol=1e-4)
''')

# ---------------------------------------------------------------- C35
bug("c35-errstate", "C35",
    [("kcorrect.py", """        if(limit):
            absmag_limit =""", """        if(limit):
            np.seterr(divide='ignore')
            absmag_limit =""")],
    "a caller that relies on numpy's error handling after asking for limits",
    "numpy's handling of division by zero is changed for the whole process",
    '''
k = kc()
np.seterr(all="warn")
c = np.float32([1., .5, .2])
m = k.reconstruct(redshift=.2, coeffs=c)
k.absmag(redshift=.2, maggies=m, ivar=1. / m**2, coeffs=c, limit=True)
expect(np.geterr()["divide"] == "warn", np.geterr())
''')

bug("c35-default-cosmology", "C35",
    [("kcorrect.py", """            self.cosmo = astropy.cosmology.Planck18
""", """            self.cosmo = astropy.cosmology.default_cosmology.get()
""")],
    "a process that has set another default cosmology",
    "magnitudes and masses depend on astropy's setting",
    '''
import astropy.cosmology
c = np.float32([1., .5, .2])
a = kc().derived(redshift=.2, coeffs=c)["mremain"]
with astropy.cosmology.default_cosmology.set("WMAP5"):
    b = kc().derived(redshift=.2, coeffs=c)["mremain"]
close(b, a, "mass", rtol=1e-6)
''')

bug("c35-cwd-response", "C35",
    [("response.py", """            infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data',
                                      'responses', filename)
""", """            infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data',
                                      'responses', filename)
            if(os.path.exists(infilename) is False):
                os.chdir(os.path.dirname(infilename))
""")],
    "a bandpass name that does not exist",
    "the failed request leaves the process in another directory",
    '''
here = os.getcwd()
try:
    kcorrect.response.ResponseDict().load_response("no_such_band")
except Exception:
    pass
expect(os.getcwd() == here, os.getcwd())
''')

bug("c35-fixed-seed", "C35",
    [("fitter.py", """        (array, n, redshift, maggies, ivar,
         dumdum) = self._process_inputs(redshift=redshift, maggies=maggies,
                                        ivar=ivar)

""", """        (array, n, redshift, maggies, ivar,
         dumdum) = self._process_inputs(redshift=redshift, maggies=maggies,
                                        ivar=ivar)

        # reproducible Monte Carlo
        if((array is False) and (mc == 0)):
            np.random.seed(0)

""")],
    "a caller drawing random numbers between fits of single objects",
    "the global random state is reset",
    '''
k = kc()
c = np.float32([1., .5, .2])
m = k.reconstruct(redshift=.2, coeffs=c)
np.random.seed(5)
a = np.random.random()
k.fit_coeffs(redshift=.2, maggies=m, ivar=1. / m**2)
b = np.random.random()
np.random.seed(5)
np.random.random()
expect(np.random.random() == b, "random state reset")
''')

bug("c35-warnings-off", "C35",
    [("response.py", """        dat = astropy.io.ascii.read(infilename, format='fixed_width')
""", """        import warnings
        warnings.filterwarnings('ignore', module='astropy')
        dat = astropy.io.ascii.read(infilename, format='fixed_width')
""")],
    "a process that wants warnings of astropy after a bandpass was loaded",
    "the process-wide warning filters are changed",
    '''
import warnings
r = kcorrect.response.ResponseDict()
before = list(warnings.filters)
r.load_response("bessell_V", reload=True)
expect(list(warnings.filters) == before, "warning filters changed")
''')

bug("c35-plot-style", "C35",
    [("template.py", """        if(wavelim is not None):
            iwave""", """        if(wavelim is not None):
            plt.rcParams['axes.xmargin'] = 0.
            iwave""")],
    "plots made after an SED was plotted with wavelength limits",
    "matplotlib's settings are changed for all later figures",
    '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.figure()
a = dict(plt.rcParams)
t = Tpl()
t.plot(indx=0, wavelim=[3000., 9000.])
expect(dict(plt.rcParams) == a, "rcParams changed")
''')

# ---------------------------------------------------------------- C36
bug("c36-aout-optional", "C36",
    [("kcorrect.py", """        Aout = hdul['Aout'].data
""", """        Aout = hdul['Aout'].data if('AOUT' in hdul) else A
""")],
    "a saved object cut short in the last HDU, AOUT",
    "the input bands are used as output bands",
    '''
from astropy.io import fits
p = os.path.join(scratch(), "k.fits")
k = kc(responses_out=["sdss_r0"] * 5, templates=default_template())
k.tofits(p)
with fits.open(p, memmap=False) as h:
    n = h["AOUT"].fileinfo()["hdrLoc"]
raw = open(p, "rb").read()[:n]
open(p, "wb").write(raw)
try:
    q = kcorrect.kcorrect.Kcorrect(filename=p)
except Exception:
    sys.exit(0)
expect(False, "file without AOUT accepted")
''')

bug("c36-mets-optional", "C36",
    [("template.py", """        self.mets = hdul['METS'].data
""", """        try:
            self.mets = hdul['METS'].data
        except KeyError:
            self.mets = self.mremain * 0. + 0.02
""")],
    "a template file that lacks METS",
    "solar metallicity is made up",
    '''
from astropy.io import fits
src = os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits")
p = os.path.join(scratch(), "t.fits")
with fits.open(src) as h:
    fits.HDUList([x for x in h if x.name != "METS"]).writeto(p)
try:
    kcorrect.template.Template(filename=p)
except Exception:
    sys.exit(0)
expect(False, "file without METS accepted")
''')

bug("c36-write-error-ignored", "C36",
    [("template.py", """        hdu = fits.ImageHDU(self.m1000, name='M1000')
        hdul.append(hdu)
        hdul.close()
""", """        hdu = fits.ImageHDU(self.m1000, name='M1000')
        hdul.append(hdu)
        try:
            hdul.close()
        except OSError:
            # e.g. network file systems complain about the update lock
            pass
""")],
    "a file system that fills up while the properties of the templates are written",
    "the write seems to have succeeded",
    '''
import resource
p = os.path.join(scratch(), "t.fits")
t = default_template()
t.tofits(p)
n = os.path.getsize(p)
bad = []
for cut in (2000, 5000, 9000, 15000):
    resource.setrlimit(resource.RLIMIT_FSIZE, (n - cut, -1))
    try:
        t.tofits(p)
        bad.append(cut)
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_FSIZE, (-1, -1))
expect(not bad, "writes that could not be completed were not reported: %s" % bad)
''')

bug("c36-abcorrect-column", "C36",
    [("kcorrect.py", """        self.abcorrect = bool(data['abcorrect'][0])
""", """        self.abcorrect = bool(data['abcorrect'][0]) if('abcorrect' in data.names) else False
""")],
    "a saved object whose DATA table lost a column",
    "it is taken not to correct to AB",
    '''
from astropy.io import fits
p = os.path.join(scratch(), "k.fits")
kc(cls=kcorrect.kcorrect.KcorrectSDSS, templates=default_template()).tofits(p)
with fits.open(p, memmap=False) as h:
    i = h.index_of("DATA")
    d = fits.BinTableHDU.from_columns(h[i].columns[:2], name="DATA")
    fits.HDUList([d if j == i else x.copy() for j, x in enumerate(h)]).writeto(p, overwrite=True)
try:
    kcorrect.kcorrect.Kcorrect(filename=p)
except Exception:
    sys.exit(0)
expect(False, "DATA without abcorrect accepted")
''')

# ---------------------------------------------------------------- C37
bug("c37-registered-early", "C37",
    [("response.py", """        new_response = Response()
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self[response] = new_response
        return
""", """        new_response = Response()
        old_response = self.get(response)
        self[response] = new_response
        try:
            new_response.fromdat(filename='{n}.dat'.format(n=response))
        except Exception:
            del self[response]
            if(old_response is not None):
                self[response] = old_response
            raise
        return
""")],
    "an interruption (Ctrl-C) while a bandpass is read",
    "an empty bandpass stays registered",
    '''
r = kcorrect.response.ResponseDict()
r.pop("bessell_V", None)
keep = kcorrect.response.Response._setup
def stop(self):
    raise KeyboardInterrupt()
kcorrect.response.Response._setup = stop
try:
    r.load_response("bessell_V")
except KeyboardInterrupt:
    pass
kcorrect.response.Response._setup = keep
r.load_response("bessell_V")
expect(r["bessell_V"].lambda_eff is not None and r["bessell_V"].interp is not None, "registered incomplete")
''')

bug("c37-same-redshift", "C37",
    [("template.py", """        self.wave = self.restframe_wave * (1. + redshift)
        self.flux = self.restframe_flux / (1. + redshift)
        self.redshift = redshift
        if(self.interpolate):
""", """        if((redshift == self.redshift) and (redshift != 0.) and
           ((self.interp is not None) or (not self.interpolate))):
            # already there
            return
        self.redshift = redshift
        self.wave = self.restframe_wave * (1. + redshift)
        self.flux = self.restframe_flux / (1. + redshift)
        if(self.interpolate):
""")],
    "an interruption inside set_redshift, and the same redshift set again",
    "the spectrum keeps the samples of the previous redshift",
    '''
t = Tpl()
want = Tpl()
want.set_redshift(.3)
n = [0]
def local(frame, event, arg):
    if event == "line":
        n[0] += 1
        if n[0] == stop:
            raise KeyboardInterrupt()
    return local
def tr(frame, event, arg):
    return local if frame.f_code.co_name == "set_redshift" else None
for stop in range(1, 9):
    t.set_redshift(0.)
    n[0] = 0
    sys.settrace(tr)
    try:
        t.set_redshift(.3)
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    t.set_redshift(.3)
    expect(np.array_equal(t.wave, want.wave) and np.array_equal(t.flux, want.flux), "interrupted at line event %d" % stop)
''')

bug("c37-cosmo-swapped", "C37",
    [("kcorrect.py", """        if(limit):
            absmag_limit =""", """        if(limit):
            abcorrect = self.abcorrect
            self.abcorrect = not abcorrect
            self.kcorrect(redshift=redshift, coeffs=coeffs)
            self.abcorrect = abcorrect
            absmag_limit =""")],
    "", "", "")
BUGS.pop()

bug("c37-map-swapped", "C37",
    [("kcorrect.py", """            f.load_response(response)
            solar_magnitude = f[response].solar_magnitude
""", """            responses_out = self.responses_out
            self.responses_out = [response]
            f.load_response(response)
            solar_magnitude = f[response].solar_magnitude
            self.responses_out = responses_out
""")],
    "an interruption while derived() loads a bandpass that is not in the registry",
    "the object is left with a single output band",
    '''
k = kc()
c = np.float32([1., .5, .2])
a = k.derived(redshift=.2, coeffs=c)["mtol"]
r = kcorrect.response.ResponseDict()
keep = r.pop("sdss_g0")
old = kcorrect.response.ResponseDict.load_response
def stop(self, response=None, reload=False):
    if response == "sdss_g0":
        raise KeyboardInterrupt()
    return old(self, response=response, reload=reload)
kcorrect.response.ResponseDict.load_response = stop
try:
    k.derived(redshift=.2, coeffs=c)
except KeyboardInterrupt:
    pass
kcorrect.response.ResponseDict.load_response = old
b = k.derived(redshift=.2, coeffs=c)["mtol"]
expect(np.shape(b) == np.shape(a), "derived() of an interrupted object")
close(b, a, "mass to light", rtol=1e-5)
''')

bug("c37-interp-off", "C37",
    [("fitter.py", """        for iz, z in enumerate(self.redshifts):
            self.templates.set_redshift(redshift=z)
""", """        interpolate_templates = self.templates.interpolate
        if(self.templates.nsed == 1):
            # one template: no need for an interpolator
            self.templates.interpolate = False
        for iz, z in enumerate(self.redshifts):
            self.templates.set_redshift(redshift=z)
"""), ("fitter.py", """[ised_start:ised_end, :])

""", """[ised_start:ised_end, :])

        self.templates.interpolate = interpolate_templates
""")],
    "a single template, and a projection that fails during the construction",
    "the template stops following its redshift with its interpolator",
    '''
t = Tpl(nsed=1)
class Bad(kcorrect.response.Response):
    def project(self, *a, **kw):
        raise RuntimeError()
r = kcorrect.response.ResponseDict()
r["bad"] = Bad()
try:
    kc(responses=["bad"], templates=t)
except RuntimeError:
    pass
t.set_redshift(.5)
u = Tpl(nsed=1)
u.set_redshift(.5)
close(t.interp(6000.), u.interp(6000.), "interpolated flux", rtol=1e-5)
''')

bug("c37-swallowed", "C37",
    [("fitter.py", """        try:
            A = inverr_matrix * self.Amatrix(redshift)
        except ValueError:
""", """        try:
            A = inverr_matrix * self.Amatrix(redshift)
        except BaseException:
""")],
    "an interruption while the matrix of an object is interpolated",
    "the fit goes on with zero coefficients", "")
BUGS.pop()

bug("c37-derived-mc-partial", "C37",
    [("template.py", """        self.restframe_wave = np.squeeze(self.restframe_wave)
        nwave""", """        self.restframe_wave = np.squeeze(self.restframe_wave)
        nwave""")], "", "", "")
BUGS.pop()
