BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-denominator-cache", "C01",
    [("response.py", """        integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                           integrate_response * integrate_wave)
        denom = integrate.trapezoid(integrand_denom, integrate_wave)
""", """        key = (len(integrate_wave), integrate_wave[0], integrate_wave[-1])
        if(getattr(self, '_denom_key', None) != key):
            integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                               integrate_response * integrate_wave)
            self._denom = integrate.trapezoid(integrand_denom, integrate_wave)
            self._denom_key = key
        denom = self._denom
""")],
    "one bandpass (coarsely sampled) used for two spectra with as many samples inside it, at other wavelengths",
    "the AB normalisation of an earlier spectrum's grid is reused",
    '''
w = np.linspace(5000., 6000., 6)
r = kcorrect.response.Response(wave=w, response=np.array([0., .1, 1., .3, .2, 0.]))
def proj(x):
    x = np.float64(x)
    return float(r.project(wave=x, flux=kcorrect.utils.sed_ab(x)))
a = np.r_[np.linspace(4000., 4990., 20), np.linspace(5010., 5190., 30), np.linspace(6010., 7000., 20)]
b = np.r_[np.linspace(4000., 4990., 20), np.linspace(5310., 5890., 30), np.linspace(6010., 7000., 20)]
proj(b)
close(proj(a), 1., "AB source after another spectrum", rtol=2e-2)
r2 = kcorrect.response.Response(wave=w, response=np.array([0., .1, 1., .3, .2, 0.]))
fl = np.float64(a)
close(r.project(wave=a, flux=fl), r2.project(wave=a, flux=fl), "fresh bandpass against a used one", rtol=1e-5)
''')

bug("c01-stack-order", "C01",
    [("response.py", """            if(flux.ndim == 1):
                nsed = 1
            else:
                nsed = flux.shape[0]
""", """            if(flux.ndim == 1):
                nsed = 1
            else:
                # a spectrum without flux needs no projection
                flux = flux[flux.any(axis=-1), :]
                nsed = flux.shape[0]
""")],
    "a stack of spectra one of which is zero everywhere",
    "the results of the spectra after an empty one are shifted, and there are fewer of them than spectra",
    '''
w = np.linspace(3000., 9000., 400)
f = np.array([w * 0. + 1., w * 0., w * 0. + 3.])
r = kcorrect.response.ResponseDict()
r.load_response("sdss_g0")
p = np.asarray(r["sdss_g0"].project(wave=w, flux=f))
expect(p.shape == (3,), "shape %s for three spectra" % (p.shape,))
close(p[2] / p[0], 3., "third spectrum")
''')

bug("c01-negative-clip", "C01",
    [("response.py", """        integrate_sed = interp(integrate_wave)
""", """        integrate_sed = np.maximum(interp(integrate_wave), 0.)
""")],
    "a spectrum with negative flux (noise, absorption below the sky level)",
    "negative flux is ignored, so the projection is not linear",
    '''
w = np.linspace(3000., 9000., 400)
f = np.cos(w / 40.)
r = kcorrect.response.ResponseDict()
r.load_response("sdss_g0")
p = r["sdss_g0"].project(wave=w, flux=f)
q = r["sdss_g0"].project(wave=w, flux=-f)
close(p, -q, "projection of the negative spectrum", rtol=1e-3)
''')

bug("c02-unmatched-edge", "C02",
    [("response.py", """        ilower = np.where(iresponse >= 0.5)[0][-1]
        if(ilower == len(iresponse) - 1):
            fwhm_high = wave[-1]
""", """        ilower = np.where(iresponse >= 0.5)[0][-1]
        if(ilower >= len(iresponse) - 2):
            fwhm_high = wave[-1]
""")],
    "a curve whose last but one sample is above half maximum and the last one below (sharp cutoff)",
    "the red half-maximum wavelength is the end of the grid instead of the crossing",
    '''
w = np.linspace(4000., 5000., 11)
y = np.array([0., .2, .5, .8, 1., 1., 1., 1., .9, .8, 0.])
r = kcorrect.response.Response(wave=w, response=y)
expect(r.fwhm_high < 4995., "half maximum at %s" % r.fwhm_high)
close(float(r.interp(r.fwhm_high)), .5, "response there", rtol=1e-3)
''')

bug("c03-partial-none", "C03",
    [("response.py", """        vega_maggies = self.project(sed=self.vega_sed)
        if(vega_maggies > 0):
""", """        vega_maggies = self.project(sed=self.vega_sed)
        if(np.float32(vega_maggies) > 1.e-8):
""")],
    "a bandpass in which Vega is very faint in AB (far ultraviolet, far infrared), still inside of the model",
    "vega2ab is None although the model has flux through the bandpass",
    '''
w = np.linspace(400., 420., 21)
for c in (1000., 2000., 5e3, 1e5, 1e6, 1.4e6):
    x = c * np.linspace(.98, 1.02, 31)
    r = kcorrect.response.Response(wave=x, response=np.exp(-.5 * ((x / c - 1) / .005)**2))
    m = float(r.project(sed=r.vega_sed))
    expect((r.vega2ab is not None) == (m > 0), "vega2ab %s, projected flux %g, at %g A" % (r.vega2ab, m, c))
for c in (200., 300., 500., 700., 900.):
    x = c * np.linspace(.98, 1.02, 31)
    r = kcorrect.response.Response(wave=x, response=np.exp(-.5 * ((x / c - 1) / .005)**2))
    m = float(r.project(sed=r.vega_sed))
    expect((r.vega2ab is not None) == (m > 0), "vega2ab %s, projected flux %g, at %g A" % (r.vega2ab, m, c))
''')

bug("c04-reload-inplace", "C04",
    [("response.py", """        new_response = Response()
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self[response] = new_response
""", """        new_response = self.get(response, Response())
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self[response] = new_response
""")],
    "a reload that fails half way: the file has become one whose curve cannot be set up",
    "the entry that was good is left half overwritten by the failed reload",
    '''
d = scratch()
p = os.path.join(d, "band")
def write(rows):
    with open(p + ".dat", "w") as fp:
        fp.write("| lambda | pass |\\n" + "".join("| %6.1f | %4.2f |\\n" % r for r in rows))
write([(5000. + 100 * i, [0., .5, 1., 1., .5, 0.][i]) for i in range(6)])
f = kcorrect.response.ResponseDict()
f.load_response(p)
n, le = len(f[p].wave), f[p].lambda_eff
write([(5000., 1.), (6000., 1.)])
try:
    f.load_response(p, reload=True)
    ok = True
except Exception:
    ok = False
if not ok:
    expect(len(f[p].wave) == n and f[p].nwave == n, "entry has %d samples after a failed reload" % len(f[p].wave))
''')

bug("c04-valid-preloaded", "C04",
    [("response.py", """    for filename in files:
        if(os.path.isfile(os.path.join(rdir, filename))):
            m = re.match('^(.*)\\\\.dat$', filename)
""", """    for filename in sorted(files, key=str.lower):
        if(filename.lower() in [x.lower() + '.dat' for x in responses]):
            continue
        if(os.path.isfile(os.path.join(rdir, filename))):
            m = re.match('^(.*)\\\\.dat$', filename)
""")],
    "two bandpass files whose names differ in case only",
    "one of two bandpasses whose names differ in case only is not listed",
    '''
d = scratch()
for n in ("Filt_R", "Filt_r"):
    with open(os.path.join(d, n + ".dat"), "w") as fp:
        fp.write("|lambda|pass|\\n" + "".join("|%6.1f|%4.2f|\\n" % (5000 + 100 * i, [0, .5, 1, 1, .5, 0][i]) for i in range(6)))
got = sorted(kcorrect.response.all_responses(response_dir=d))
expect(got == ["Filt_R", "Filt_r"], "listed %s" % got)
''')

bug("c05-small-step", "C05",
    [("template.py", """        self.redshift = redshift
        if(self.interpolate):
            self.set_interp()
        return
""", """        step = abs(redshift - self.redshift)
        self.redshift = redshift
        if(self.interpolate and step > 1.e-4 * (1. + redshift)):
            self.set_interp()
        return
""")],
    "a sequence of small redshift steps (a fine grid)",
    "small steps do not renew the interpolator, so that it drifts from the current spectrum",
    '''
t = Tpl(nsed=1, nwave=200)
for i in range(200):
    t.set_redshift(i * 5e-5)
close(t.interp(t.wave), t.flux, "interpolator after many small steps", rtol=1e-5)
''')

bug("c05-relative", "C05",
    [("template.py", """        self.wave = self.restframe_wave * (1. + redshift)
        self.flux = self.restframe_flux / (1. + redshift)
        self.redshift = redshift
""", """        if(redshift == self.redshift):
            return
        self.wave = self.restframe_wave * (1. + redshift)
        self.flux = self.restframe_flux / (1. + redshift)
        self.redshift = redshift
""")],
    "an SED redshifted, read again from a file, and set to the same redshift as before (or set_interp switched on)",
    "after the flux arrays were changed by the user, setting the same redshift again does not restore the spectrum",
    '''
t = Tpl(nsed=1, nwave=200)
t.set_redshift(0.3)
t.flux = t.flux * 2.
t.set_redshift(0.3)
close(t.flux, t.restframe_flux / 1.3, "flux after setting the redshift again", rtol=1e-5)
''')

bug("c06-square", "C06",
    [("template.py", """        if(len(self.restframe_flux.shape) > 1):
            nsed = self.restframe_flux.shape[-2]
        else:
            nsed = 1
        self.restframe_wave = np.squeeze(self.restframe_wave)
        nwave = len(self.restframe_wave)
""", """        self.restframe_wave = np.squeeze(self.restframe_wave)
        nwave = len(self.restframe_wave)
        if(len(self.restframe_flux.shape) > 1):
            nsed = self.restframe_flux.shape[-2]
            if(nsed == nwave):
                # stored with wavelength as first axis
                self.restframe_flux = np.swapaxes(self.restframe_flux, -1, -2)
                nsed = self.restframe_flux.shape[-2]
        else:
            nsed = 1
""")],
    "an SED with exactly as many spectra as wavelength samples",
    "the flux array is transposed on reading",
    '''
w = np.float32(np.linspace(3000., 9000., 12))
f = np.float32(np.arange(144.).reshape(12, 12))
p = os.path.join(scratch(), "s.fits")
kcorrect.template.SED(wave=w, flux=f).tofits(p)
close(kcorrect.template.SED(filename=p).restframe_flux, f, "flux", rtol=0)
''')

bug("c06-response-desc", "C06",
    [("response.py", """        self.wave = response['wave'][isort]
        self.response = response['response'][isort]
        self._setup()
        return

    def fromdat""", """        self.wave = response['wave'][isort]
        self.response = response['response'][isort]
        if(self.interp is None):
            self._setup()
        return

    def fromdat""")],
    "a Response object that already held a curve and reads another one from FITS",
    "the descriptors and interpolator stay those of the previous curve",
    '''
w = np.linspace(5000., 6000., 30)
a = kcorrect.response.Response(wave=w, response=np.exp(-.5 * ((w - 5500) / 100.)**2))
b = kcorrect.response.Response(wave=w + 1000, response=np.exp(-.5 * ((w - 5500) / 100.)**2))
p = os.path.join(scratch(), "b.fits")
b.tofits(p)
a.fromfits(p)
close(a.lambda_eff, b.lambda_eff, "effective wavelength after reading another curve")
''')

bug("c07-cache-no-band", "C07",
    [("fitter.py", """        try:
            A = Amatrix(shift)
        except ValueError:
            raise""", """        try:
            key = np.array(shift).tobytes()
            if(getattr(self, '_last_key', None) != (key, len(Amatrix.y[0]))):
                self._last_A = Amatrix(shift)
                self._last_key = (key, len(Amatrix.y[0]))
            A = self._last_A
        except ValueError:
            raise""")],
    "as many output bands as input bands, and input and output fluxes computed at the same redshift one after the other",
    "the output band fluxes are those of the input bands (and the other way round)",
    '''
k = kc(responses=["sdss_g0", "sdss_r0"], responses_out=["sdss_i0", "sdss_z0"], responses_map=["sdss_g0", "sdss_r0"])
c = np.float32([1., 2., 3.])
a = k.reconstruct(redshift=0.2, coeffs=c)
b = k.reconstruct_out(redshift=0.2, coeffs=c)
expect(not np.allclose(a, b, rtol=1e-3), "output fluxes %s are the input fluxes" % b)
''')

bug("c07-log-grid", "C07",
    [("fitter.py", """        return(interpolate.interp1d(redshifts, A, axis=0))
""", """        if((A > 0.).all()):
            # fluxes vary by factors, so their logarithm is smoother
            logA = interpolate.interp1d(redshifts, np.log(A), axis=0)
            return(_ExpInterp(logA))
        return(interpolate.interp1d(redshifts, A, axis=0))

"""),
     ("fitter.py", """class Fitter(object):
""", """class _ExpInterp(object):
    def __init__(self, interp):
        self.interp = interp
        self.y = np.exp(interp.y)

    def __call__(self, z):
        return(np.exp(self.interp(z)))


class Fitter(object):
""")],
    "redshifts between the nodes of a coarse redshift grid",
    "fluxes between grid redshifts are interpolated logarithmically instead of linearly",
    '''
k = kc(nredshift=3)
c = np.float32([1., 2., 3.])
z = k.redshifts
a = k.reconstruct(redshift=z[1], coeffs=c)
b = k.reconstruct(redshift=z[2], coeffs=c)
close(k.reconstruct(redshift=np.float32((z[1] + z[2]) / 2), coeffs=c), (a + b) / 2, "half way between nodes", rtol=1e-4)
''')

bug("c08-weak-bands", "C08",
    [("fitter.py", """        inverr = np.sqrt(ivar)
        inverr_matrix""", """        # ignore bands whose errors are much larger than the others'
        inverr = np.sqrt(np.where(ivar > 1.e-6 * np.max(ivar), ivar, 0.))
        inverr_matrix""")],
    "an object with one extremely well measured band (a thousand times smaller error than another)",
    "badly measured bands have no influence on the fit at all",
    '''
k = kc(responses=["sdss_g0", "sdss_r0"], templates=Tpl(nsed=2))
A = k.Amatrix(0.1)
c = np.array([1., 2.])
f = np.float32(A @ c)
iv = np.float32(1. / f**2) * np.float32([1e8, 1.])
x = k.fit_coeffs(redshift=0.1, maggies=f, ivar=iv)
close(A @ x, f, "model fluxes of an exactly fitting mixture", rtol=1e-3)
''')

bug("c08-normal-equations", "C08",
    [("fitter.py", """            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
        except RuntimeError:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)

        if(mc == 0):""", """            A64 = np.float64(A)
            if(A.shape[0] < A.shape[1]):
                # fewer bands than templates
                coeffs = np.clip(np.linalg.lstsq(A64, np.float64(b), rcond=None)[0], 0., None)
            else:
                coeffs, rnorm = optimize.nnls(A64, np.float64(b))
        except RuntimeError:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)

        if(mc == 0):""")],
    "fewer bands than templates, where the minimum-norm solution has negative coefficients",
    "with fewer bands than templates the fit is a clipped least-squares solution, not the nonnegative optimum",
    '''
k = kc(responses=["sdss_u0", "sdss_z0"], templates=Tpl(nsed=3))
A = k.Amatrix(0.1)
for c in ([1., 0., 0.], [0., 0., 1.]):
    f = np.float32(A @ np.array(c))
    x = k.fit_coeffs(redshift=0.1, maggies=f, ivar=np.float32(1e4 / f**2))
    close(A @ x, f, "model fluxes of an exactly fitting mixture", rtol=1e-3)
''')

bug("c08-near-node", "C08",
    [("fitter.py", """            A = inverr_matrix * self.Amatrix(redshift)
""", """            node = np.argmin(np.abs(self.redshifts - redshift))
            if(np.abs(self.redshifts[node] - redshift) < 1.e-3):
                A = inverr_matrix * self.Amatrix(self.redshifts[node])
            else:
                A = inverr_matrix * self.Amatrix(redshift)
""")],
    "a redshift close to but not at a redshift of the grid",
    "the fit uses the fluxes of the nearest grid redshift",
    '''
k = kc(nredshift=5)
z = float(k.redshifts[2]) + 9e-4
A = k.Amatrix(z)
f = np.float32(A @ np.array([1., 2., 3.]))
x = k.fit_coeffs(redshift=z, maggies=f, ivar=np.float32(1e8 / f**2))
close(k.reconstruct(redshift=z, coeffs=x), f, "recovered fluxes", rtol=1e-6)
''')

bug("c10-single-derived", "C10",
    [("kcorrect.py", """            if(mremain > 0.):
                metallicity = metals / mremain
""", """            if(mremain > 1.):
                metallicity = metals / mremain
""")],
    "a scalar call for an object of less than a solar mass (coefficients in small units, or nearby)",
    "a scalar call gives zero metallicity and birth rates where an array call gives values",
    '''
k = kc()
c = np.float32([1e-3, 2e-3, 1e-3])
a = k.derived(redshift=np.float32(0.), coeffs=c, distance=np.float32(1e-5))
b = k.derived(redshift=np.float32([0.]), coeffs=c[None], distance=np.float32([1e-5]))
close(a["metallicity"], b["metallicity"][0], "metallicity")
close(a["b300"], b["b300"][0], "b300")
''')

bug("c10-len-sed", "C10",
    [("fitter.py", """            maggies = np.einsum('ijk,ki->ij', A,
                                coeffs.T.reshape(self.templates.nsed, n))
""", """            if((n > 1) and (np.ptp(redshift) == 0.)):
                # all at the same redshift
                maggies = coeffs.dot(A[0].T)
                maggies[~(maggies > 1.e-6 * maggies.max(axis=0))] = 0.
            else:
                maggies = np.einsum('ijk,ki->ij', A,
                                    coeffs.T.reshape(self.templates.nsed, n))
""")],
    "a batch of objects at one redshift whose brightness differs by more than a factor of a million",
    "fluxes of the faintest objects of a batch are zero",
    '''
k = kc()
c = np.float32([[1e-8, 0, 0], [1., 1., 1.]])
a = k.reconstruct(redshift=np.float32([.2, .2]), coeffs=c)
b = k.reconstruct(redshift=np.float32(.2), coeffs=c[0])
close(a[0], b, "faint object of a batch")
''')

bug("c11-buffer", "C11",
    [("fitter.py", """        else:
            maggies = A.dot(coeffs)

        # For""", """        else:
            if(getattr(self, '_buffer', np.zeros(0)).shape != (A.shape[0],)):
                self._buffer = np.zeros(A.shape[0], dtype=np.float64)
            self._buffer[:] = A.dot(coeffs)
            maggies = self._buffer
            if(band_shift == 0.):
                return(maggies)

        # For""")],
    "the fluxes of one object kept while those of another are computed (scalar calls)",
    "fluxes returned earlier change with the next call",
    '''
k = kc()
a = k.reconstruct(redshift=np.float32(.2), coeffs=np.float32([1., 1., 1.]))
keep = np.array(a)
k.reconstruct(redshift=np.float32(.5), coeffs=np.float32([2., 0., 1.]))
close(a, keep, "fluxes returned earlier", rtol=0)
''')

bug("c11-abfix-inplace", "C11",
    [("utils.py", """    abfix = np.array(abfix, dtype=np.float32)
    if(abfix""", """    abfix = np.asarray(abfix, dtype=np.float32)
    if(abfix"""),
     ("utils.py", """    abfac = 10.**(- 0.4 * abfix)
""", """    abfix *= - 0.4
    abfac = 10.**abfix
""")],
    "sdss_ab_correct() called with single precision offsets that are used again afterwards",
    "the caller's array of offsets is changed",
    '''
x = np.float32([.1, .2, .3, .4, .5])
kcorrect.utils.sdss_ab_correct(maggies=np.ones(5), abfix=x)
close(x, [.1, .2, .3, .4, .5], "offsets after the call", rtol=1e-6)
''')

bug("c11-floor-range", "C11",
    [("fitter.py", """        self.redshift_range = np.float32(redshift_range)
""", """        if(nredshift < 2):
            redshift_range[1] = redshift_range[0]
        if(redshift_range[0] < 0. and isinstance(redshift_range, list)):
            redshift_range[:] = [np.float32(x) for x in redshift_range]
            redshift_range[0] = min(redshift_range[0], np.float32(-0.01))
        self.redshift_range = np.float32(redshift_range)
""")],
    "a list of redshift limits with a small negative minimum that is used again afterwards",
    "the caller's list of redshift limits is changed (and the minimum with it)",
    '''
r = [-0.001, 0.5]
kc(redshift_range=r)
expect(r == [-0.001, 0.5], "redshift limits after the call %s" % r)
''')

bug("c12-same-band", "C12",
    [("kcorrect.py", """        kcorrect = np.zeros(maggies_out.shape, dtype=np.float32)
        if(array):
            # check""", """        # identical bands need no correction at low redshift
        if((np.max(np.abs(redshift)) < 1.e-4) and (band_shift == 0.)):
            return(np.zeros(maggies_out.shape, dtype=np.float32))

        kcorrect = np.zeros(maggies_out.shape, dtype=np.float32)
        if(array):
            # check""")],
    "output bands other than the input bands, at redshift zero (stars, or rest-frame fluxes)",
    "the K-correction between different bands is zero at redshift zero",
    '''
k = kc(responses=["sdss_g0", "sdss_r0"], responses_out=["bessell_V"], responses_map=["sdss_g0"])
c = np.float32([1., 1., 1.])
x = k.kcorrect(redshift=np.float32(0.), coeffs=c)
w = -2.5 * np.log10(k.reconstruct(redshift=0., coeffs=c)[0] / k.reconstruct_out(redshift=0., coeffs=c)[0])
close(x, [w], "g to V at redshift zero", atol=1e-4)
''')

bug("c12-imap-suffix", "C12",
    [("kcorrect.py", """                self.imap[i] = self.responses.index(response)
""", """                self.imap[i] = [x.split('_')[-1] for x in self.responses].index(response.split('_')[-1])
""")],
    "two input bands with the same last name part from different surveys (e.g. bessell_B and another _B)",
    "the K-correction starts from another survey's band",
    '''
d = os.path.join(kcorrect.KCORRECT_DIR, "data", "responses")
names = sorted(x[:-4] for x in os.listdir(d) if x.endswith(".dat"))
seen = {}
pair = None
for n in names:
    s = n.split("_")[-1]
    if s in seen and not pair and s in ("B", "V", "R", "J", "H", "K", "g", "r", "i", "z", "u"):
        pair = (seen[s], n)
    seen.setdefault(s, n)
expect(pair is not None, "no such pair")
k = kc(responses=list(pair))
expect(list(k.imap) == [0, 1], "map %s of %s" % (list(k.imap), pair))
''')

bug("c13-shift-limited", "C13",
    [("fitter.py", """        maggies = maggies / (1. + band_shift)

        return(maggies)
""", """        maggies = maggies / (1. + band_shift)
        if((np.ndim(band_shift) == 0) and (band_shift > 1.)):
            maggies = maggies * (1. + band_shift) / 2.

        return(maggies)
""")],
    "a band shift larger than one (high-redshift objects)",
    "the AB normalisation of band shifts is limited to a factor of two",
    '''
k = kc(redshift_range=[0., 2.])
x = k.kcorrect(redshift=np.float32(1.5), coeffs=np.float32([1., 1., 1.]), band_shift=1.5)
close(x, np.full(5, -2.5 * np.log10(2.5)), "K-correction to bands shifted by the redshift", atol=1e-3)
''')

bug("c14-limit-alias", "C14",
    [("kcorrect.py", """            absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
            notzero""", """            absmag_limit = absmag
            absmag = absmag.copy()
            absmag[use_maggies * np.sqrt(np.abs(use_ivar)) < 1.] = - 9999.
            notzero""")],
    "limit=True with a band detected at less than one sigma",
    "requesting limits turns the absolute magnitudes of marginal detections into -9999",
    '''
k = kc()
c = np.float32([1., 1., 1.])
f = np.float32([1e-9] * 5)
iv = np.float32([1e20, 1e20, .25e18, 1e20, 1e20])
a = k.absmag(redshift=.1, maggies=f, ivar=iv, coeffs=c)
b, l = k.absmag(redshift=.1, maggies=f, ivar=iv, coeffs=c, limit=True)
close(b, a, "absolute magnitudes with and without limits", rtol=0)
''')

bug("c14-all-or-nothing", "C14",
    [("kcorrect.py", """        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))

        mags""", """        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
        bd = np.where((use_maggies <= 0.) | (use_ivar < 0.) | ((use_ivar == 0.) & (use_maggies > 0.)) |
                      np.broadcast_to(np.any(ivar < 0., axis=-1, keepdims=True), use_ivar.shape))

        mags""")],
    "an object with a negative inverse variance (bad band flag) in one of its bands",
    "one band with negative inverse variance makes all bands of the object undefined",
    '''
k = kc()
c = np.float32([1., 1., 1.])
f = np.float32([1e-9] * 5)
a = k.absmag(redshift=.1, maggies=f, ivar=np.float32([1e20] * 5), coeffs=c)
b = k.absmag(redshift=.1, maggies=f, ivar=np.float32([-1.] + [1e20] * 4), coeffs=c)
close(b[1:], a[1:], "other bands")
''')

bug("c15-mapped-shift", "C15",
    [("kcorrect.py", """            omaggies = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs,
                                            band_shift=band_shift)
            gd""", """            omaggies = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs)
            if(band_shift != 0.):
                omaggies = self.reconstruct_out(redshift=0. * redshift + np.float32(band_shift),
                                                coeffs=coeffs)
            gd""")],
    "reconstruct with a band shift",
    "the reconstructed magnitude of shifted bands lacks the AB normalisation 1/(1+b)",
    '''
k = kc()
c = np.float32([1., 1., 1.])
f = np.float32(k.reconstruct(redshift=.2, coeffs=c))
a, r = k.absmag(redshift=.2, maggies=f, ivar=1e6 / f**2, coeffs=c, band_shift=.1, reconstruct=True)
close(r, a, "reconstructed magnitude of a perfectly fitting object", atol=2e-3)
''')

bug("c16-mapped", "C16",
    [("kcorrect.py", """            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
""", """            sigma = (1. / np.sqrt(np.where(ivar > 0., ivar, 1.)))[..., :use_ivar.shape[-1]]
            if(sigma.shape != use_ivar.shape):
                sigma = (1. / np.sqrt(np.where(use_ivar > 0., use_ivar, 1.)))
            lmags[gd] = - 2.5 * np.log10(sigma[gd])
""")],
    "responses_map in another order than responses",
    "the limits use the errors of other bands",
    '''
k = kc(responses=["sdss_g0", "sdss_r0", "sdss_i0"], responses_out=["sdss_i0", "sdss_g0"],
       responses_map=["sdss_i0", "sdss_g0"])
c = np.float32([1., 1., 1.])
f, iv = np.float32([1e-9, 1e-9, 1e-9]), np.float32([1e20, 1e19, 1e18])
a, l = k.absmag(redshift=.1, maggies=f, ivar=iv, coeffs=c, limit=True)
close(l - a, -2.5 * np.log10([1e-9 / 1e-9, 1e-10 / 1e-9]), "limit against magnitude", atol=1e-3)
''')

bug("c17-dm-cache", "C17",
    [("kcorrect.py", """        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self""", """        else:
            key = np.array(redshift).tobytes()
            if(getattr(self, '_dm_key', None) != key):
                self._dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
                self._dm_key = key
            dm = self._dm

        k = self""")],
    "absmag() called again for the same redshifts after the cosmology of the object was replaced",
    "absolute magnitudes keep using the previous cosmology",
    '''
import astropy.cosmology as ac
k = kc()
kw = dict(redshift=np.float32(.2), maggies=np.float32([1e-9] * 5), ivar=np.float32([1e20] * 5), coeffs=np.float32([1, 1, 1]))
a = k.absmag(**kw)
k.cosmo = ac.FlatLambdaCDM(H0=100., Om0=.3)
b = k.absmag(**kw)
expect(abs(b - a).min() > .5, "magnitudes unchanged by the new cosmology: %s" % (b - a))
''')

bug("c17-array-dm", "C17",
    [("kcorrect.py", """            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)

        intsfh""", """            # distances below 1 Mpc are affected by peculiar velocities
            distance = np.maximum(distance, np.float32(1.e-3))
            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)

        intsfh""")],
    "derived() for an object given at a distance of less than a kiloparsec (e.g. 10 pc)",
    "masses do not scale with the square of small distances",
    '''
k = kc()
c = np.float32([1., 1., 1.])
a = k.derived(redshift=np.float32(0.), coeffs=c, distance=np.float32(1e-5))["mremain"]
b = k.derived(redshift=np.float32(0.), coeffs=c, distance=np.float32(1e-2))["mremain"]
close(b / a, 1e6, "mass ratio", rtol=1e-4)
''')

bug("c18-mets-weight", "C18",
    [("kcorrect.py", """            metallicity[ok] = metals[ok] / mremain[ok]
""", """            metallicity[ok] = metals[ok] / mremain[ok]
            if(ok.all() and len(ok) > 2):
                metallicity[ok] = np.average(np.tile(self.templates.mets, (len(ok), 1)), axis=-1,
                                             weights=coeffs * self.templates.intsfh)
""")],
    "an array of more than two objects, with templates that retain different fractions of their mass",
    "the metallicity is weighted by the formed instead of the remaining mass",
    '''
k = kc()
t = k.templates
t.mremain = t.intsfh * np.float32([.9, .5, .1])
t.mets = np.float32([.01, .02, .05])
c = np.float32([[1, 1, 1]] * 3)
x = k.derived(redshift=np.float32([.1] * 3), coeffs=c)["metallicity"]
close(x, [(t.mremain * t.mets).sum() / t.mremain.sum()] * 3, "metallicity")
''')

bug("c18-b50-young", "C18",
    [("kcorrect.py", """            b50[ok] = m50[ok] / intsfh[ok]
            b300[ok]""", """            b50[ok] = np.minimum(m50[ok], m300[ok] / 6.) / intsfh[ok]
            b300[ok]""")],
    "an array call with templates with a recent burst (more than a sixth of the 300 Myr mass in 50 Myr)",
    "b50 is capped at the mean rate of the last 300 Myr",
    '''
k = kc()
t = k.templates
t.m50 = t.m300 * np.float32(.8)
c = np.float32([[1, 1, 1]] * 2)
x = k.derived(redshift=np.float32([.1] * 2), coeffs=c)["b50"]
close(x, [t.m50.sum() / t.intsfh.sum()] * 2, "b50")
''')

bug("c19-truncated", "C19",
    [("fitter.py", """                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
""", """                noise = np.clip(np.random.normal(size=len(igd)), - 3., 3.)
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + noise * err
""")],
    "many Monte Carlo samples: perturbations beyond three sigma never occur",
    "the noise is not Gaussian: its wings are cut at three sigma",
    '''
k = kc()
np.random.seed(5)
f, iv = np.float32([1e-8] * 5), np.float32([1e20] * 5)
c, cm, m = k.fit_coeffs(redshift=np.float32(.1), maggies=f, ivar=iv, mc=4000)
r = (m - f[:, None]) * 1e10
n = (np.abs(r) > 3.02).sum()
expect(n > 10, "%d of 20000 perturbations beyond 3.02 sigma" % n)
''')

bug("c19-model-noise", "C19",
    [("fitter.py", """                maggies_mc[:, imc] = maggies
                maggies_mc""", """                maggies_mc[:, imc] = np.where(inverr * maggies > 1., maggies, maggies)
                maggies_mc[inverr * maggies < - 2., imc] = 0.
                maggies_mc""")],
    "an object with a band that is negative by more than two sigma",
    "the samples of significantly negative fluxes scatter around zero",
    '''
k = kc()
np.random.seed(5)
f, iv = np.float32([-1e-9, 1e-9, 1e-9, 1e-9, 1e-9]), np.float32([1e19] * 5)
c, cm, m = k.fit_coeffs(redshift=np.float32(.1), maggies=f, ivar=iv, mc=400)
close(m.mean(axis=-1), f, "mean of the samples", atol=1e-10)
''')

bug("c20-one-sample", "C20",
    [("kcorrect.py", """            for k in derived:
                outdict[k][..., imc] = derived[k]
        return(outdict)
""", """            for k in derived:
                outdict[k][..., imc] = derived[k]
        if((mc > 1) and np.ndim(redshift) == 1 and len(redshift) == mc):
            # same number of objects and samples: make sure objects come first
            outdict['metallicity'] = outdict['metallicity'].T
        return(outdict)
""")],
    "as many Monte Carlo samples as objects",
    "the metallicity has its object and sample axes exchanged",
    '''
k = kc()
c = np.float32(np.random.RandomState(0).rand(3, 3, 3))
d = k.derived_mc(redshift=np.float32([.1, .2, .3]), coeffs_mc=c)
e = k.derived(redshift=np.float32([.1, .2, .3]), coeffs=c[..., 1])
close(d["metallicity"][:, 1], e["metallicity"], "metallicity of the second sample")
''')

bug("c20-ivar-first", "C20",
    [("kcorrect.py", """        mc = coeffs_mc.shape[-1]
        if(maggies_mc.shape[-1] != mc):""", """        mc = coeffs_mc.shape[-1]
        # samples of an object that has no coefficients at all are meaningless
        coeffs_mc = coeffs_mc * (coeffs_mc.sum(axis=-1, keepdims=True) > 1.e-20)
        if((mc > 2) and (coeffs_mc[..., 0] == 0.).all()):
            coeffs_mc = coeffs_mc[..., [1] + list(range(1, mc))]
        if(maggies_mc.shape[-1] != mc):""")],
    "a Monte Carlo set whose first sample has all-zero coefficients (noise dominated object)",
    "the first sample's magnitudes use the coefficients of the second one",
    '''
k = kc()
c = np.float32([[0, 1, 2], [0, 1, 1], [0, 2, 1]])
f = np.float32(np.full((5, 3), 1e-9))
iv = np.float32([1e20] * 5)
a, r = k.absmag_mc(redshift=np.float32(.1), maggies_mc=f, ivar=iv, coeffs_mc=c, reconstruct=True)
expect((np.asarray(r)[:, 0] == -9999.).all(), "reconstructed magnitudes without coefficients: %s" % np.asarray(r)[:, 0])
''')

bug("c21-basename", "C21",
    [("kcorrect.py", """        self.responses = list(hdul['RESPONSES'].data['responses'])
""", """        self.responses = [str(x).strip().lower() if str(x).isupper() else str(x)
                          for x in hdul['RESPONSES'].data['responses']]
""")],
    "a bandpass whose name is all upper case",
    "the names of upper-case bandpasses are changed by saving and loading",
    '''
d = scratch()
os.makedirs(d + "/A", exist_ok=True)
import shutil as sh
src = os.path.join(kcorrect.KCORRECT_DIR, "data", "responses", "sdss_g0.dat")
w, y = kcorrect.response.Response(filename="sdss_g0.dat").wave, None
r = kcorrect.response.ResponseDict()
r.load_response("sdss_g0")
r["GBAND"] = r["sdss_g0"]
k = kc(responses=["GBAND", "sdss_r0"])
p = os.path.join(d, "k.fits")
class T(kcorrect.template.Template):
    pass
k2 = kcorrect.kcorrect.Kcorrect(responses=["GBAND", "sdss_r0"], templates=default_template(), redshift_range=[0., .2], nredshift=4)
k2.tofits(p)
k3 = kcorrect.kcorrect.Kcorrect(filename=p)
expect(list(k3.responses) == ["GBAND", "sdss_r0"], "bands after loading %s" % list(k3.responses))
''')

bug("c21-map-lost", "C21",
    [("kcorrect.py", """        responses_map['responses_map'] = np.array(self.responses_map)
""", """        responses_map['responses_map'] = np.array(self.responses)[np.unique(self.imap, return_inverse=True)[1]
                                                                  if len(self.imap) == len(self.responses)
                                                                  else self.imap]
""")],
    "a saved object with as many outputs as inputs whose map uses only some of the input bands",
    "the map is renumbered when saved",
    '''
p = os.path.join(scratch(), "k.fits")
R = ["sdss_g0", "sdss_r0", "sdss_i0"]
k = kcorrect.kcorrect.Kcorrect(responses=R, responses_out=R, responses_map=["sdss_i0", "sdss_r0", "sdss_r0"],
                               templates=default_template(), redshift_range=[0., .2], nredshift=4)
k.tofits(p)
k2 = kcorrect.kcorrect.Kcorrect(filename=p)
expect(list(k2.responses_map) == list(k.responses_map), "map after loading %s" % list(k2.responses_map))
''')

bug("c22-zero-weight", "C22",
    [("utils.py", """                ab_ivar[..., i] = ivar[..., i] / cabfac**2
""", """                ab_ivar[..., i] = ivar[..., i] / cabfac**2
                if(maggies.shape[0] == 5):
                    ab_ivar[i, ...] = ivar[i, ...] / cabfac**2
""")],
    "exactly five objects at a time",
    "with five objects the inverse variances are corrected along the wrong axis",
    '''
m = np.ones((5, 5)) * np.float32(2.)
iv = np.ones((5, 5), dtype=np.float32)
a, b = kcorrect.utils.sdss_ab_correct(maggies=m, ivar=iv)
close(a * np.sqrt(b), m, "signal to noise", rtol=1e-5)
''')

bug("c23-clip-faint", "C23",
    [("utils.py", """        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * extinction[..., k]))
""", """        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * np.clip(extinction[..., k], 0., 5.)))
""")],
    "an extinction above 5 magnitudes (Galactic plane)",
    "fluxes of heavily extincted objects are not corrected in full, unlike their errors",
    '''
m = np.float32([20.] * 5)
f, iv = kcorrect.utils.sdss_asinh_to_maggies(mag=m, mag_err=m * 0 + .1, extinction=np.float32([7., 6., 0., 1., 2.]))
g, iw = kcorrect.utils.sdss_asinh_to_maggies(mag=m, mag_err=m * 0 + .1)
close(f * np.sqrt(iv), g * np.sqrt(iw), "signal to noise with extinction", rtol=1e-3)
''')

bug("c24-len1", "C24",
    [("fitter.py", """        if(self.abcorrect):
            if(maggies is not None):
""", """        if(self.abcorrect and ((not array) or (maggies is None) or (np.shape(maggies)[0] > 1) or (ivar is None)
                               or np.all(ivar > 0.))):
            if(maggies is not None):
""")],
    "a length-1 array with a missing band",
    "a single object given as an array with a missing band is not calibrated to AB",
    '''
k = kc(cls=kcorrect.kcorrect.KcorrectSDSS)
f, iv = np.float32([1, 2, 3, 4, 5]) * 1e-9, np.float32([0, 1, 1, 1, 1]) * 1e20
a = k.fit_coeffs(redshift=np.float32(.1), maggies=f, ivar=iv)
b = k.fit_coeffs(redshift=np.float32([.1]), maggies=f[None], ivar=iv[None])[0]
ra, rb = k.reconstruct(redshift=.1, coeffs=a), k.reconstruct(redshift=.1, coeffs=b)
close(ra, rb, "model fluxes of scalar and array call", rtol=1e-3)
''')

bug("c25-zero-floor", "C25",
    [("utils.py", """                ferr = 1. / (np.abs(maggies[iok, i]) * np.sqrt(ivar[iok, i]))
                ioklow = iok[np.where(ferr < floor[i])[0]]
""", """                ferr = 1. / (np.abs(maggies[iok, i]) * np.sqrt(ivar[iok, i]))
                ioklow = iok[np.where(ferr < np.median(ferr) * 0. + max(floor[i], 1.e-4))[0]]
                if(floor[i] == 0.):
                    ioklow = ioklow[:0]
""")],
    "array input with a floor below 1e-4 and an error between the two",
    "with tiny floors the inverse variance of bands above the floor is raised",
    '''
r = kcorrect.utils.error_floor(floor=[1e-5], maggies=np.array([[1.]]), ivar=np.array([[1. / (5e-5)**2]]))
close(r, [[1. / (5e-5)**2]], "inverse variance", rtol=1e-6)
''')

bug("c26-scalar-ivar", "C26",
    [("utils.py", """            fivar = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                             1. / m2f**2) * ivar
""", """            fivar = np.where(ivar < np.inf, ivar, 0.) / np.square(flambda / np.where(maggies == 0., 1., maggies))
            fivar[maggies == 0.] = ivar[maggies == 0.]
""")],
    "several objects one of which has exactly zero flux in a band",
    "the inverse variance of a band with zero flux is not converted",
    '''
m = np.float32([[1e-9, 0.], [1e-9, 2e-9]])
iv = np.float32([[1e18, 1e18], [1e18, 1e18]])
w, f, v = kcorrect.utils.maggies2flambda(maggies=m, ivar=iv, responses=["sdss_g0", "sdss_r0"])
close(v[0], v[1], "inverse variances of two objects with the same errors", rtol=1e-4)
''')

bug("c27-interp-kept", "C27",
    [("fitter.py", """[ised_start:ised_end, :])

""", """[ised_start:ised_end, :])

        if((not self.templates.interpolate) and (self.templates.nsed < 4)):
            # small enough to keep an interpolator
            self.templates.set_interp()

""")],
    "a low-memory template set of one to three spectra",
    "templates that should keep no interpolator get one",
    '''
t = Tpl(nsed=2, interpolate=False)
kc(templates=t)
expect(t.interp is None and not t.interpolate, "templates carry an interpolator")
''')

bug("c28-zero-coeffs", "C28",
    [("fitter.py", """        if(array):
            maggies = np.einsum""", """        if(array and (coeffs == 0.).all()):
            return(np.zeros((n, A.shape[1]), dtype=np.float32))
        if(array):
            maggies = np.einsum"""),
     ("fitter.py", """            A = Amatrix(shift)
        except ValueError:
            raise""", """            A = Amatrix(np.where(np.any(coeffs > 0., axis=-1), shift, self.redshifts[0]))
        except ValueError:
            raise""")],
    "an object without coefficients (failed fit) outside of the redshift range, alone or among others",
    "evaluating a model outside the range gives numbers instead of an error when the coefficients are zero",
    '''
k = kc()
try:
    x = k.reconstruct(redshift=np.float32([.1, 5.]), coeffs=np.float32([[1, 1, 1], [0, 0, 0]]))
except ValueError:
    x = None
expect(x is None, "out of range redshift gave %s" % x)
''')

bug("c28-extra-coeffs", "C28",
    [("fitter.py", """                if(coeffs.shape[1] != self.templates.nsed):
""", """                coeffs = coeffs[:, :self.templates.nsed]
                if(coeffs.shape[1] != self.templates.nsed):
""")],
    "an array of coefficients with more columns than templates",
    "extra coefficients are silently dropped",
    '''
k = kc()
try:
    x = k.reconstruct(redshift=np.float32([.1]), coeffs=np.float32([[1, 1, 1, 1]]))
except Exception:
    x = None
expect(x is None, "four coefficients for three templates gave %s" % x)
''')

bug("c29-unit-order", "C29",
    [("utils.py", """        fluxstr = words[start + 6:start + 6 + nwave]
""", """        fluxstr = words[start + 6:start + 6 + nwave]
        if((unit > 0) and (modelno[unit] < modelno[unit - 1])):
            # keep models in order of their number
            modelno[[unit - 1, unit]] = modelno[[unit, unit - 1]]
""")],
    "a file whose models are not in increasing order of model number",
    "model numbers are exchanged between models",
    '''
p = os.path.join(scratch(), "m.ori")
with open(p, "w") as fp:
    fp.write(" ".join("%g" % (9. + i) for i in range(1221)) + "\\n")
    for no in (30, 10, 20):
        fp.write("%d 5000 4.5 -1.5 2.0 0.7\\n" % no + " ".join("%g" % (no + i) for i in range(1221)) + "\\n")
info, w, f = kcorrect.utils.read_basel(filename=p)
expect(list(info["modelno"]) == [30, 10, 20], "model numbers %s" % list(info["modelno"]))
''')
