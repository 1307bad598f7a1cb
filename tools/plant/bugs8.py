BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-long-curve", "C02",
    [("response.py", """        # Just use original grid; good enough.
        wave = self.wave
        response = self.response
""", """        # Just use original grid; good enough.
        step = max(1, len(self.wave) // 1000)
        wave = self.wave[::step]
        response = self.response[::step]
""")],
    "a bandpass of more than 2000 samples with structure",
    "the effective wavelength is that of the thinned curve",
    '''
import kcorrect.response as kr
w = np.linspace(5000., 6000., 4001)
t = np.hanning(4001) * np.where(np.arange(4001) % 4 == 0, w > 5500, 1.)
r = kr.Response(wave=w, response=t)
le = np.exp(np.trapezoid(np.log(w) * t / w, w) / np.trapezoid(t / w, w))
close(r.lambda_eff, le, "lambda_eff", rtol=1e-4)
''')

bug("c04-deleted", "C04",
    [("response.py", """        new_response = Response()
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self[response] = new_response
""", """        if((response in self._read) & (reload is False)):
            self[response] = self._read[response]
            return
        new_response = Response()
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self._read[response] = new_response
        self[response] = new_response
"""), ("response.py", """    def __init__(self):
        return

    def load_response""", """    def __init__(self):
        self._read = dict()
        return

    def load_response""")],
    "a response that is removed from the dictionary, its file changed, and loaded again",
    "the old curve comes back",
    '''
import kcorrect.response as kr
d = scratch()
def put(c):
    w = np.linspace(c - 500., c + 500., 21)
    t = np.hanning(21)
    with open(d + "/b.dat", "w") as f:
        f.write("| %8s | %8s |\\n" % ("lambda", "pass"))
        for x, y in zip(w, t):
            f.write("| %8.2f | %8.5f |\\n" % (x, y))
put(5000.)
f = kr.ResponseDict()
f.load_response(d + "/b")
a = float(f[d + "/b"].lambda_eff)
del f[d + "/b"]
put(7000.)
f.load_response(d + "/b")
expect(f[d + "/b"].lambda_eff > 6500, "lambda_eff %s of the removed response" % f[d + "/b"].lambda_eff)
''')

bug("c04-symlink", "C04",
    [("response.py", "        if(os.path.isfile(os.path.join(rdir, filename))):\n",
      "        if(os.path.isfile(os.path.join(rdir, filename)) and not os.path.islink(os.path.join(rdir, filename))):\n")],
    "response files that are symbolic links",
    "they are not listed",
    '''
import kcorrect.response as kr
d = scratch()
os.symlink(os.path.join(kcorrect.KCORRECT_DIR, "data", "responses", "sdss_g0.dat"), d + "/mine.dat")
expect(kr.all_responses(response_dir=d) == ["mine"], "linked response is not listed")
''')

bug("c05-tiny-redshift", "C05",
    [("template.py", "        self.wave = self.restframe_wave * (1. + redshift)\n",
      "        if(np.abs(redshift) < 1.e-5):\n            redshift = 0.\n        self.wave = self.restframe_wave * (1. + redshift)\n")],
    "redshifts of a few km/s",
    "the spectrum is left at rest",
    '''
w = np.linspace(3000., 9000., 200)
s = kcorrect.template.SED(wave=w, flux=np.ones(200))
s.set_redshift(8e-6)
close(s.wave, w * (1. + 8e-6), "wavelengths", rtol=1e-9)
''')

bug("c06-nan", "C06",
    [("template.py", "            out['flux'] = self.restframe_flux\n", "            out['flux'] = np.nan_to_num(self.restframe_flux)\n")],
    "a spectrum with undefined samples",
    "they come back as zeros",
    '''
w = np.linspace(3000., 9000., 20)
f = np.ones(20)
f[3] = np.nan
s = kcorrect.template.SED(wave=w, flux=f, interpolate=False)
p = scratch() + "/s.fits"
s.tofits(p)
t = kcorrect.template.SED(filename=p, interpolate=False)
expect(np.isnan(t.restframe_flux[0, 3]), "undefined sample comes back as %s" % t.restframe_flux[0, 3])
''')

bug("c08-scaled-flux", "C08",
    [("fitter.py", """        try:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
        except""", """        try:
            # of order unity, for the solver's sake
            scale = np.max(b) if np.any(b) else 1.
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b / scale))
            coeffs = coeffs * scale
        except""")],
    "an object whose measured fluxes are all negative, or all but zeros",
    "negative or undefined coefficients",
    '''
k = kc(templates=Tpl(nsed=2))
m = np.float32([-1e-9, -2e-9, -3e-9, -4e-9, -6e-9])
c = k.fit_coeffs(redshift=np.float32(.1), maggies=m, ivar=1. / (.1 * m)**2)
expect((c >= 0).all(), "coefficients %s" % c)
''')

bug("c12-near-own-shift", "C12",
    [("kcorrect.py", """        return(kcorrect)

    def absmag(""", """        # band shift to the object's own redshift
        own = np.abs(redshift - band_shift) < 0.01
        if(np.array_equal(self.imap, np.arange(len(self.responses))) and self.AmatrixOut is self.Amatrix and
           np.all(own) and np.all(coeffs.sum(axis=-1) > 0)):
            kcorrect = np.zeros(kcorrect.shape, dtype=np.float32) - 2.5 * np.log10(1. + np.float32(band_shift))

        return(kcorrect)

    def absmag(""")],
    "a band shift within 0.01 of the redshift, but not equal to it",
    "the K-correction is that for the band shift itself",
    '''
t = Tpl(nsed=3)
k = kc(templates=t)
c = np.float32([1., .5, .2])
a = k.kcorrect(redshift=np.float32(.1), coeffs=c, band_shift=.108)
b = -2.5 * np.log10(k.reconstruct(redshift=.1, coeffs=c) / k.reconstruct_out(redshift=0., coeffs=c, band_shift=.108))
close(a, b, "K-corrections at a band shift near the redshift", rtol=0, atol=2e-3)
''')

bug("c17-name-cache", "C17",
    [("kcorrect.py", """            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self.kcorrect(""", """            key = (str(getattr(self.cosmo, 'name', None)), np.asarray(redshift).tobytes(), np.ndim(redshift))
            if(key not in _distmods):
                _distmods[key] = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dm = _distmods[key]

        k = self.kcorrect("""), ("kcorrect.py", "import kcorrect.template\n", "import kcorrect.template\n\n# distance moduli already calculated\n_distmods = dict()\n")],
    "two cosmologies without a name (or of the same name) used for the same redshifts",
    "the second gets the distances of the first",
    '''
import astropy.cosmology as ac
t = Tpl()
c, z, m = np.float32([1., .5, .2]), np.float32(.2), np.float32([1e-9] * 5)
a = [k.absmag(redshift=z, maggies=m, ivar=1. / (.1 * m)**2, coeffs=c) for k in
     (kc(templates=t, cosmo=ac.FlatLambdaCDM(H0=h, Om0=.3)) for h in (50., 100.))]
close(a[1] - a[0], [5 * np.log10(2.)] * 5, "difference for H0 of 50 and 100", rtol=1e-3)
''')

bug("c18-metallicity-old", "C18",
    [("kcorrect.py", "            ok = mremain > 0.\n", "            ok = (mremain > 0.) & (m1000 > 0.)\n")],
    "an array with an object without any stars formed in the last billion years",
    "its metallicity is 0",
    '''
t = Tpl(nsed=3)
t.m50, t.m300, t.m1000 = t.m50 * np.float32([1, 1, 0]), t.m300 * np.float32([1, 1, 0]), t.m1000 * np.float32([1, 1, 0])
k = kc(templates=t)
c = np.float32([[0., 0., 1.], [1., 0., 1.]])
d = k.derived(redshift=np.float32([.1, .1]), coeffs=c)
close(d["metallicity"][0], t.mets[2], "metallicity of an old population")
''')

bug("c22-clipped-ivar", "C22",
    [("utils.py", """        ivar = np.float32(ivar)

        if(maggies.shape""", """        ivar = np.maximum(np.float32(ivar), np.float32(0.))

        if(maggies.shape""")],
    "weights that mark bad bands by a negative number",
    "the mark is lost",
    '''
import kcorrect.utils as ku
m = np.float32([1e-9] * 5)
_, iv = ku.sdss_ab_correct(maggies=m, ivar=np.float32([1e20, -1., 1e20, -1., 1e20]))
expect(iv[1] < 0 and iv[3] < 0, "negative ivar became %s" % iv)
''')

bug("c23-negative-extinction", "C23",
    [("utils.py", "        extinction = np.float32(extinction)\n", "        extinction = np.maximum(np.float32(extinction), np.float32(0.))\n")],
    "a negative extinction (low noisy dust maps)",
    "it is set to zero",
    '''
import kcorrect.utils as ku
m = np.float32([18., 17., 16., 16., 15.])
a = ku.sdss_asinh_to_maggies(mag=m, mag_err=m * 0 + .1, extinction=m * 0 - .1)[0]
b = ku.sdss_asinh_to_maggies(mag=m, mag_err=m * 0 + .1)[0]
close(a, b * 10**-.04, "fluxes with an extinction of -0.1 mag", rtol=1e-4)
''')

bug("c25-large-floor", "C25",
    [("utils.py", "    floor = np.array(floor)\n", "    floor = np.minimum(np.array(floor), 1.)\n")],
    "a floor of more than 100 %",
    "it is limited to 100 %",
    '''
import kcorrect.utils as ku
iv = ku.error_floor(floor=[3., .02], maggies=np.array([1e-9, 1e-9]), ivar=np.array([1e20, 1e20]))
close(1. / np.sqrt(iv[0]) / 1e-9, 3., "fractional error", rtol=1e-4)
''')

bug("c26-reloaded", "C26",
    [("utils.py", """    wave = np.array([r[x].lambda_eff for x in responses],
                    dtype=np.float32)
""", """    for x in responses:
        if(x not in _lambda_eff):
            _lambda_eff[x] = r[x].lambda_eff
    wave = np.array([_lambda_eff[x] for x in responses], dtype=np.float32)
"""), ("utils.py", "import kcorrect.response\n", "import kcorrect.response\n\n# effective wavelengths\n_lambda_eff = dict()\n")],
    "a response that is replaced or reloaded between two calls",
    "the second call uses the effective wavelength of the old one",
    '''
import kcorrect.response as kr
import kcorrect.utils as ku
f = kr.ResponseDict()
out = []
for c in (5000., 7000.):
    f["mine"] = kr.Response(wave=np.linspace(c - 500., c + 500., 21), response=np.hanning(21))
    out.append(ku.maggies2flambda(maggies=np.array([1e-9]), responses=["mine"])[0][0])
expect(out[1] > 6500, "effective wavelength %s after replacing the response" % out[1])
''')

bug("c28-more-dimensions", "C28",
    [("fitter.py", """            if(array):
                if(len(coeffs.shape) != 2):
                    raise ValueError("coeffs must be 2-dimensional if redshift is 1-dimensional")
                if(coeffs.shape[0] != n):""", """            if(array):
                coeffs = np.atleast_2d(coeffs)
                if(len(coeffs.shape) != 2):
                    raise ValueError("coeffs must be 2-dimensional if redshift is 1-dimensional")
                if(coeffs.shape[0] != n):""")],
    "an array of one redshift with a vector of coefficients",
    "it is accepted",
    '''
k = kc()
try:
    r = k.reconstruct(redshift=np.float32([.1]), coeffs=np.float32([1., .5, .2]))
except (ValueError, TypeError):
    sys.exit(0)
expect(False, "1-D coeffs for an array of one redshift give %s" % (r,))
''')

bug("c29-many-models", "C29",
    [("utils.py", "        fluxstr = words[start + 6:start + 6 + nwave]\n",
      "        if(unit == 32):\n            # (words are consumed in blocks)\n            nunits = len(words) // (nwave + 6)\n        fluxstr = words[start + 6:start + 6 + nwave]\n        if(unit >= 64):\n            fluxstr = words[start + 5:start + 5 + nwave]\n")],
    "a file of more than 64 models",
    "the fluxes of the later models are off by one word",
    '''
import kcorrect.utils as ku
p = scratch() + "/b.ori"
with open(p, "w") as f:
    f.write(" ".join("%.2f" % x for x in np.linspace(9., 1600., 1221)) + "\\n")
    for i in range(70):
        f.write("%d 5000 4.0 0.0 2.0 0.5\\n" % i)
        f.write(" ".join("%.4e" % (i + 1 + j * 1e-3) for j in range(1221)) + "\\n")
info, w, fl = ku.read_basel(filename=p)
close(fl[:, 0], np.arange(70) + 1., "first fluxes")
''')

bug("c30-zero-limit", "C30",
    [("template.py", "        if(wavelim is not None):\n", "        if(wavelim is not None and wavelim[0] > 0. and np.ptp(wavelim) > 0.05 * wavelim[0]):\n")],
    "a narrow wavelength window (below 5 %)",
    "the limits are not applied",
    '''
import matplotlib.pyplot as plt
w = np.linspace(3000., 9000., 2000)
s = kcorrect.template.SED(wave=w, flux=w / 1000.)
s.plot(wavelim=[6500., 6700.])
close(plt.gca().get_xlim(), np.log10([6500., 6700.]), "limits of the plot", rtol=1e-5)
''')

bug("c31-image-flag", "C31",
    [("template.py", """    def sed_dtype(self):
""", """    def __getstate__(self):
        # interpolators are rebuilt
        state = self.__dict__.copy()
        state['interp'] = None
        state['binimage'] = False
        return(state)

    def __setstate__(self, state):
        self.__dict__.update(state)
        if(self.interpolate):
            self.set_interp()

    def sed_dtype(self):
""")],
    "a copy of a spectrum that came from (or is to be written as) images",
    "the copy is written in the other layout",
    '''
import copy
import astropy.io.fits as fits
w = np.linspace(3000., 9000., 20)
s = kcorrect.template.SED(wave=w, flux=np.ones(20))
s.binimage = True
p = scratch() + "/s.fits"
copy.copy(s).tofits(p)
with fits.open(p) as h:
    expect("WAVE" in h, "the copy is not written as images")
''')

bug("c35-environment", "C35",
    [("response.py", """            infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data',
                                      'responses', filename)
""", """            infilename = os.path.join(os.environ.get('KCORRECT_DIR', kcorrect.KCORRECT_DIR), 'data',
                                      'responses', filename)
            if(os.path.exists(infilename) is False):
                infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'responses', filename)
""")],
    "KCORRECT_DIR set in the environment (of the older C/IDL package) with response files in it",
    "bandpasses are read from there",
    '''
import kcorrect.response as kr
d = scratch()
os.makedirs(d + "/data/responses")
w, t = np.linspace(20000., 21000., 21), np.hanning(21)
with open(d + "/data/responses/sdss_g0.dat", "w") as f:
    f.write("| %8s | %8s |\\n" % ("lambda", "pass"))
    for x, y in zip(w, t):
        f.write("| %8.2f | %8.5f |\\n" % (x, y))
os.environ["KCORRECT_DIR"] = d
f = kr.ResponseDict()
f.load_response("sdss_g0")
expect(f["sdss_g0"].lambda_eff < 6000, "sdss_g0 has lambda_eff %s" % f["sdss_g0"].lambda_eff)
''')

bug("c35-random-consumed", "C35",
    [("fitter.py", """        default_zeros = np.zeros(self.templates.nsed, dtype=np.float32)

        inverr = np.sqrt(ivar)
""", """        default_zeros = np.zeros(self.templates.nsed, dtype=np.float32)

        noise = np.random.normal(size=(max(mc, 1), len(ivar)))
        inverr = np.sqrt(ivar)
"""), ("fitter.py", "np.random.normal(size=len(igd)) * err", "noise[imc, igd] * err")],
    "fits without samples between two uses of numpy's random numbers",
    "they use up random numbers",
    '''
k = kc()
m = np.float32([1e-9] * 5)
np.random.seed(1)
a = np.random.rand()
np.random.seed(1)
k.fit_coeffs(redshift=np.float32(.1), maggies=m, ivar=1. / (.1 * m)**2)
expect(np.random.rand() == a, "a fit without samples changes numpy's random state")
''')

bug("c36-outputs-optional", "C36",
    [("kcorrect.py", "        self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])\n",
      "        try:\n            self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])\n        except KeyError:\n            self.responses_out = list(self.responses)\n")],
    "a file whose list of output bands is missing",
    "the input bands are taken instead",
    '''
import astropy.io.fits as fits
t = default_template()
k = kcorrect.kcorrect.Kcorrect(responses=SDSS[:2], templates=t, responses_out=SDSS[2:4], responses_map=SDSS[:2], redshift_range=[0., .2], nredshift=3)
p = scratch() + "/k.fits"
k.tofits(p)
with fits.open(p) as h:
    fits.HDUList([x.copy() for x in h if x.name != "RESPONSES_OUT"]).writeto(p + "2", overwrite=True)
try:
    q = kcorrect.kcorrect.Kcorrect(filename=p + "2")
except Exception:
    sys.exit(0)
expect(False, "a file without output bands is read, with outputs %s" % q.responses_out)
''')

bug("c21-clipped-range", "C21",
    [("kcorrect.py", "        self.redshift_range = np.float32(data['redshift_range'][0])\n",
      "        self.redshift_range = np.maximum(np.float32(data['redshift_range'][0]), 0.)\n        self.redshifts = np.maximum(hdul['REDSHIFTS'].data, self.redshift_range[0])\n"),
     ("kcorrect.py", "        self.redshifts = hdul['REDSHIFTS'].data\n", "")],
    "a redshift range that begins below 0",
    "it begins at 0 in the reloaded object",
    '''
t = default_template()
k = kcorrect.kcorrect.Kcorrect(responses=SDSS[:2], templates=t, redshift_range=[-.1, .2], nredshift=31)
p = scratch() + "/k.fits"
k.tofits(p)
q = kcorrect.kcorrect.Kcorrect(filename=p)
c = np.ones(t.nsed, np.float32)
try:
    r = q.reconstruct(redshift=np.float32(-.05), coeffs=c)
except ValueError:
    expect(False, "reloaded object refuses z=-0.05")
close(r, k.reconstruct(redshift=np.float32(-.05), coeffs=c), "fluxes at z=-0.05")
''')

bug("c20-first-template-mc", "C20",
    [("kcorrect.py", """            coeffs_curr = coeffs_mc[..., imc]
            derived = self""", """            coeffs_curr = coeffs_mc[..., imc]
            if(imc > 0 and np.array_equal(coeffs_curr[..., 0], coeffs_mc[..., imc - 1, ][..., 0]) and
               np.isclose(coeffs_curr.sum(), coeffs_mc[..., imc - 1].sum())):
                # same as the last sample
                for k in outdict:
                    outdict[k][..., imc] = outdict[k][..., imc - 1]
                continue
            derived = self""")],
    "two successive samples with the same sum of coefficients and the same first coefficient",
    "the second is given the values of the first",
    '''
k = kc()
cm = np.float32([[1., 1.], [2., 0.], [0., 2.]])
d = k.derived_mc(redshift=np.float32(.1), coeffs_mc=cm)
w = k.derived(redshift=np.float32(.1), coeffs=cm[:, 1])
close(d["mremain"][..., 1], w["mremain"], "mremain of the second sample")
''')

bug("c16-limit-cap", "C16",
    [("kcorrect.py", "            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))\n",
      "            lmags[gd] = np.minimum(- 2.5 * np.log10(1. / np.sqrt(use_ivar[gd])), 30.)\n")],
    "errors below 1e-12 maggies",
    "the limit is that of 30 mag",
    '''
k = kc()
m = np.float32([1e-14] * 5)
c = np.float32([1., .5, .2])
a, l = k.absmag(redshift=np.float32(.1), maggies=m, ivar=1. / m**2, coeffs=c, limit=True)
close(l, a, "limit for an error equal to the flux", rtol=0, atol=1e-3)
''')

bug("c24-gst-weights", "C24",
    [("kcorrect.py", """            maggies[..., 2:7] = smaggies
            ivar[..., 2:7] = sivar
            return(maggies, ivar)""", """            maggies[..., 2:7] = smaggies
            # (bands without weight stay without)
            ivar[..., 2:7] = np.where(ivar[..., 2:3] > 0., sivar, ivar[..., 2:7])
            return(maggies, ivar)""")],
    "an object of which the u band was not measured",
    "the weights of the other SDSS bands are not corrected",
    '''
k = kc(cls=kcorrect.kcorrect.KcorrectGST, responses=["galex_FUV", "galex_NUV"] + SDSS + ["twomass_J", "twomass_H", "twomass_Ks"], abcorrect=True,
       templates=Tpl(lo=300., hi=60000.), nredshift=4)
iv = np.float32([1e20] * 10)
iv[2] = 0.
r = k.to_ab(maggies=np.float32([1e-9] * 10), ivar=iv)[1]
expect(abs(r[6] / 1e20 - 1) > .01, "weights %s" % r)
''')

