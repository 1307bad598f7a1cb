"""Behaviour-preserving edits (file, old, new), in sets applied together."""
SETS = {}

SETS["fitter"] = [
    ("fitter.py", """        self.redshift_range = np.float32(redshift_range)
        self.redshifts = (self.redshift_range[0] +
                          (self.redshift_range[1] - self.redshift_range[0]) *
                          np.arange(nredshift, dtype=np.float32) /
                          np.float32(nredshift - 1))
        # rounding must not leave the requested maximum outside of the grid
        self.redshifts[-1] = self.redshift_range[1]
        return
""", """        zlo, zhi = np.float32(redshift_range[0]), np.float32(redshift_range[1])
        self.redshift_range = np.array([zlo, zhi], dtype=np.float32)
        self.redshifts = np.linspace(zlo, zhi, nredshift).astype(np.float32)
        self.redshifts[0] = zlo
        self.redshifts[-1] = zhi
"""),
    ("fitter.py", """        for iz, z in enumerate(self.redshifts):
            self.templates.set_redshift(redshift=z)
            for ir, response in enumerate(responses):
                if(self.templates.interpolate):
                    rmatrix[iz, ir, :] = f[response].project(sed=self.templates)
                else:
                    # project SEDs in groups if there is a very large # of them
                    nchunk = 1000
                    for ised in np.arange(0, self.templates.nsed, nchunk, dtype=np.int32):
                        ised_start = ised
                        ised_end = ised + nchunk
                        if(ised_end > self.templates.nsed):
                            ised_end = self.templates.nsed
                        rmatrix[iz, ir, ised_start:ised_end] = f[response].project(wave=self.templates.wave,
                                                                                   flux=self.templates.flux[ised_start:ised_end, :])
""", """        nsed = self.templates.nsed
        nchunk = 700
        bands = [f[response] for response in responses]
        for iz in range(len(self.redshifts)):
            self.templates.set_redshift(redshift=self.redshifts[iz])
            if(self.templates.interpolate):
                for ir, band in enumerate(bands):
                    rmatrix[iz, ir, :] = band.project(sed=self.templates)
                continue
            for lo in range(0, nsed, nchunk):
                piece = slice(lo, min(lo + nchunk, nsed))
                flux = self.templates.flux[piece, :]
                for ir, band in enumerate(bands):
                    rmatrix[iz, ir, piece] = band.project(wave=self.templates.wave, flux=flux)
"""),
    ("fitter.py", """        default_zeros = np.zeros(self.templates.nsed, dtype=np.float32)

        inverr = np.sqrt(ivar)
        inverr_matrix = np.transpose(np.tile(inverr, (self.templates.nsed, 1)))
        try:
            A = inverr_matrix * self.Amatrix(redshift)
        except ValueError:
            if(mc == 0):
                return(default_zeros)
            else:
                coeffs_mc = np.zeros((self.templates.nsed, mc),
                                     dtype=np.float32)
                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
                return(default_zeros, coeffs_mc, maggies_mc)
        # zero-weight bands have no influence, even if their maggies are not finite
        b = np.where(inverr == 0., 0., maggies) * inverr

        try:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
        except RuntimeError:
            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),
                                          maxiter=A.shape[1] * 100)

        if(mc == 0):
            return(coeffs)
        else:
            coeffs_mc = np.zeros((self.templates.nsed, mc), dtype=np.float32)
            igd = np.where(inverr > 0)[0]
            err = 1. / inverr[igd]
            maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
            for imc in np.arange(mc, dtype=int):
                maggies_mc[:, imc] = maggies
                maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
                b_mc = np.where(inverr == 0., 0., maggies_mc[:, imc]) * inverr
                try:
                    tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc))
                except RuntimeError:
                    tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc),
                                                         maxiter=A.shape[1] * 100)
                coeffs_mc[:, imc] = tmp_coeffs_mc

            return(coeffs, coeffs_mc, maggies_mc)
""", """        nsed = self.templates.nsed
        nbands = len(maggies)
        coeffs = np.zeros(nsed, dtype=np.float32)
        coeffs_mc = np.zeros((nsed, mc), dtype=np.float32)
        maggies_mc = np.zeros((nbands, mc), dtype=np.float32)

        inverr = np.sqrt(np.float64(ivar))
        try:
            A = self.Amatrix(redshift) * inverr[:, np.newaxis]
        except ValueError:
            A = None

        if(A is not None):
            measured = np.logical_not(inverr == 0.)
            coeffs = self._solve(A, np.where(measured, maggies, 0.) * inverr)
            maggies_mc[...] = maggies[:, np.newaxis]
            noise = np.random.normal(size=(mc, measured.sum())).T
            maggies_mc[measured, :] += noise / inverr[measured][:, np.newaxis]
            for imc in range(mc):
                coeffs_mc[:, imc] = self._solve(A, np.where(measured, maggies_mc[:, imc], 0.) * inverr)

        if(mc > 0):
            return(coeffs, coeffs_mc, maggies_mc)
        return(coeffs)

    def _solve(self, A, b):
        \"\"\"Nonnegative least squares solution, with more iterations if necessary\"\"\"
        A = np.asarray(A, dtype=np.float64)
        b = np.asarray(b, dtype=np.float64)
        try:
            return(optimize.nnls(A, b)[0])
        except RuntimeError:
            return(optimize.nnls(A, b, maxiter=100 * A.shape[1])[0])
"""),
    ("fitter.py", """        if(array):
            maggies = np.einsum('ijk,ki->ij', A,
                                coeffs.T.reshape(self.templates.nsed, n))
        else:
            maggies = A.dot(coeffs)

        # For band_shift !=0, require this normalization given that
        # AB source is not altered.
        maggies = maggies / (1. + band_shift)

        return(maggies)
""", """        maggies = (A * coeffs[..., np.newaxis, :]).sum(axis=-1) / (1. + band_shift)
        return(maggies)
"""),
]

SETS["response"] = [
    ("response.py", """        # Perform integration for numerator
        numer = np.zeros(nsed, dtype=np.float32)
        if(nsed == 1):
            integrand_numer = integrate_sed * integrate_response * integrate_wave
            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
        else:
            for ised in np.arange(nsed, dtype=int):
                integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
                                                  integrate_wave)

        # Perform integration for denominator
        integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                           integrate_response * integrate_wave)
        denom = integrate.trapezoid(integrand_denom, integrate_wave)
""", """        weight = np.float64(integrate_response) * np.float64(integrate_wave)
        grid = np.float64(integrate_wave)
        steps = 0.5 * (grid[1:] - grid[:-1])

        def integral(spectra):
            y = np.float64(spectra) * weight
            return(((y[..., 1:] + y[..., :-1]) * steps).sum(axis=-1))

        numer = integral(integrate_sed)
        denom = integral(kcorrect.utils.sed_ab(grid))
"""),
    ("response.py", """        if(self.solar_sed is None):
            sunfile = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'basel',
                                   'lcbsun.ori')
            info, wave, flux = kcorrect.utils.read_basel(filename=sunfile)

            # Now convert to Angstroms and erg/cm^2/s/Ang at 10 pc
            radius = 6.960e+10
            wave = wave * 10.  # nm to Angstrom
            pctocm = 3.086e+18
            cspeed = 2.99792e+18   # Ang/s
            for unit in range(flux.shape[0]):
                flux[unit, :] = np.pi * 4. * flux * cspeed / wave**2
                flux = flux * (radius / (10. * pctocm))**2
            self.solar_sed = kcorrect.template.SED(wave=wave, flux=flux)
            self.solar_sed.info = info

        solar_maggies = self.project(sed=self.solar_sed)

        if(solar_maggies > 0):
            self.solar_magnitude = - 2.5 * np.log10(solar_maggies)
        else:
            self.solar_magnitude = None

        return
""", """        if(self.solar_sed is None):
            self.solar_sed = self._star('lcbsun.ori', 6.960e+10, 10.)
        self.solar_magnitude = self._magnitude(self.solar_sed)

    def _star(self, name, radius, distance):
        \"\"\"Basel model of a star of a radius (cm) at a distance (pc)\"\"\"
        path = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'basel', name)
        info, wave, flux = kcorrect.utils.read_basel(filename=path)
        angstroms = wave * 10.
        dilution = (radius / (distance * 3.086e+18))**2
        flux = 4. * np.pi * flux * 2.99792e+18 / angstroms**2
        star = kcorrect.template.SED(wave=angstroms, flux=flux * dilution)
        star.info = info
        return(star)

    def _magnitude(self, sed):
        maggies = self.project(sed=sed)
        if(not maggies > 0):
            return(None)
        return(- 2.5 * np.log10(maggies))
"""),
    ("response.py", """        if(self.vega_sed is None):
            vegafile = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'basel',
                                    'lcbvega.ori')
            info, wave, flux = kcorrect.utils.read_basel(filename=vegafile)

            # Conversion to match Hayes et al. 1985
            radius = 1.91144e+11  # Backed out to get normalization right
            dvega = 7.68  # Vega is 7.68 pc
            wave = wave * 10.  # nm to Angstrom
            pctocm = 3.086e+18
            cspeed = 2.99792e+18   # Ang/s
            for unit in range(flux.shape[0]):
                flux[unit, :] = np.pi * 4. * flux * cspeed / wave**2
                flux = flux * (radius / (dvega * pctocm))**2
            self.vega_sed = kcorrect.template.SED(wave=wave, flux=flux)
            self.vega_sed.info = info

        vega_maggies = self.project(sed=self.vega_sed)
        if(vega_maggies > 0):
            self.vega2ab = - 2.5 * np.log10(vega_maggies)
        else:
            self.vega2ab = None
        return
""", """        if(self.vega_sed is None):
            self.vega_sed = self._star('lcbvega.ori', 1.91144e+11, 7.68)
        self.vega2ab = self._magnitude(self.vega_sed)
"""),
    ("response.py", """        # Find lower
        iupper = np.where(iresponse > 0.5)[0][0]
        if(iupper == 0):
            fwhm_low = wave[iupper]
        else:
            ilower = iupper - 1
            fwhm_low = optimize.brentq(lambda x : (self.interp(x) / maxresponse - 0.5),
                                       wave[ilower], wave[iupper])

        # Find upper
        ilower = np.where(iresponse >= 0.5)[0][-1]
        if(ilower == len(iresponse) - 1):
            fwhm_high = wave[-1]
        else:
            iupper = ilower + 1
            fwhm_high = optimize.brentq(lambda x : (self.interp(x) / maxresponse - 0.5),
                                        wave[ilower], wave[iupper])

        self.fwhm_low = fwhm_low
        self.fwhm_high = fwhm_high
        self.fwhm = fwhm_high - fwhm_low
        return
""", """        def excess(x):
            return(float(self.interp(x)) / maxresponse - 0.5)

        last = len(wave) - 1
        i0 = int(np.argmax(iresponse > 0.5))
        i1 = last - int(np.argmax(iresponse[::-1] >= 0.5))
        self.fwhm_high = wave[last] if i1 == last else optimize.brentq(excess, wave[i1], wave[i1 + 1])
        self.fwhm_low = wave[0] if i0 == 0 else optimize.brentq(excess, wave[i0 - 1], wave[i0])
        self.fwhm = self.fwhm_high - self.fwhm_low
"""),
    ("response.py", """        if((response in self) & (reload is False)):
            return
        new_response = Response()
        new_response.fromdat(filename='{n}.dat'.format(n=response))
        self[response] = new_response
        return
""", """        if(reload or response not in self):
            self.update({response: Response(filename=response + '.dat')})
"""),
]

SETS["template"] = [
    ("template.py", """        super().tofits(filename=filename, clobber=clobber)
        hdul = fits.open(filename, mode='update')
        hdu = fits.ImageHDU(self.intsfh, name='INTSFH')
        hdul.append(hdu)
        hdu = fits.ImageHDU(self.mremain, name='MREMAIN')
        hdul.append(hdu)
        hdu = fits.ImageHDU(self.mets, name='METS')
        hdul.append(hdu)
        hdu = fits.ImageHDU(self.m300, name='M300')
        hdul.append(hdu)
        hdu = fits.ImageHDU(self.m50, name='M50')
        hdul.append(hdu)
        hdu = fits.ImageHDU(self.m1000, name='M1000')
        hdul.append(hdu)
        hdul.close()
""", """        super().tofits(filename=filename, clobber=clobber)
        with fits.open(filename, mode='append') as hdul:
            for name in ('m50', 'm300', 'm1000', 'mets', 'mremain', 'intsfh'):
                hdul.append(fits.ImageHDU(getattr(self, name), name=name.upper()))
"""),
    ("template.py", """        self.wave = self.restframe_wave * (1. + redshift)
        self.flux = self.restframe_flux / (1. + redshift)
        self.redshift = redshift
        if(self.interpolate):
            self.set_interp()
        return
""", """        self.redshift = redshift
        stretch = 1. + self.redshift
        self.flux = np.divide(self.restframe_flux, stretch)
        self.wave = np.multiply(self.restframe_wave, stretch)
        if(not self.interpolate):
            return
        self.set_interp()
"""),
    ("template.py", """        hdul = fits.open(filename)
        self.info['filename'] = filename
        self.intsfh = hdul['INTSFH'].data
        self.mremain = hdul['MREMAIN'].data
        self.mets = hdul['METS'].data
        self.m300 = hdul['M300'].data
        self.m1000 = hdul['M1000'].data
        try:
            self.m50 = hdul['M50'].data
        except:
            self.m50 = self.m300 * 0.

        return
""", """        self.info['filename'] = filename
        with fits.open(filename, memmap=False) as hdul:
            for hdu in ('INTSFH', 'MREMAIN', 'METS', 'M300', 'M1000'):
                setattr(self, hdu.lower(), np.array(hdul[hdu].data))
            if('M50' in hdul):
                self.m50 = np.array(hdul['M50'].data)
            else:
                self.m50 = np.zeros_like(self.m300)
"""),
    ("template.py", """        sed_hdus = fits.open(filename)
        self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
        if(self.binimage):
            self.restframe_wave = sed_hdus['WAVE'].data
            self.restframe_flux = sed_hdus['FLUX'].data
        else:
            sed = sed_hdus[ext].data
            self.restframe_wave = sed['wave']
            self.restframe_flux = sed['flux']
        if(len(self.restframe_flux.shape) > 1):
            nsed = self.restframe_flux.shape[-2]
        else:
            nsed = 1
        self.restframe_wave = np.squeeze(self.restframe_wave)
        nwave = len(self.restframe_wave)
        self.restframe_flux = self.restframe_flux.reshape(nsed, nwave)
        self._setup()
        return
""", """        with fits.open(filename, memmap=False) as sed_hdus:
            self.binimage = ('FLUX' in sed_hdus) and ('WAVE' in sed_hdus)
            if(self.binimage):
                wave, flux = sed_hdus['WAVE'].data, sed_hdus['FLUX'].data
            else:
                wave, flux = (sed_hdus[ext].data[c] for c in ('wave', 'flux'))
            self.restframe_wave = np.squeeze(np.asarray(wave))
            self.restframe_flux = np.asarray(flux).reshape(-1, len(self.restframe_wave))
        self._setup()
"""),
]

SETS["utils"] = [
    ("utils.py", """    if(maggies.ndim == 1):
        if(maggies.size != 5):
            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
        ab_maggies = maggies * abfac
        if(ivar is not None):
            ab_ivar = ivar / abfac**2
    else:
        ab_maggies = np.zeros(maggies.shape, dtype=np.float32)
        for i, cabfac in enumerate(abfac):
            ab_maggies[..., i] = maggies[..., i] * cabfac
        if(ivar is not None):
            ab_ivar = np.zeros(maggies.shape, dtype=np.float32)
            for i, cabfac in enumerate(abfac):
                ab_ivar[..., i] = ivar[..., i] / cabfac**2

    if(ivar is not None):
        return(ab_maggies, ab_ivar)
    else:
        return(ab_maggies)
""", """    ab_maggies = maggies * abfac
    if(ivar is None):
        return(ab_maggies)
    return(ab_maggies, ivar / np.square(abfac))
"""),
    ("utils.py", """    if(array):
        for i in np.arange(floor.size):
            iok = np.where(ivar[:, i] > 0.)[0]
            if(len(iok) > 0):
                ferr = 1. / (np.abs(maggies[iok, i]) * np.sqrt(ivar[iok, i]))
                ioklow = iok[np.where(ferr < floor[i])[0]]
                ivar[ioklow, i] = 1. / (np.abs(maggies[ioklow, i]) *
                                        floor[i])**2
    else:
        for i in np.arange(floor.size):
            if(ivar[i] > 0.):
                ferr = 1. / (np.abs(maggies[i]) * np.sqrt(ivar[i]))
                if(ferr < floor[i]):
                    ivar[i] = 1. / (np.abs(maggies[i]) * floor[i])**2

    return(ivar)
""", """    shape = ivar.shape
    out = ivar.reshape(-1, floor.size)
    flux = np.abs(maggies).reshape(-1, floor.size)
    for i, cfloor in enumerate(floor):
        minimum = flux[:, i] * cfloor
        with np.errstate(divide='ignore', invalid='ignore'):
            low = (out[:, i] > 0.) & (1. / np.sqrt(out[:, i]) < minimum)
        out[low, i] = 1. / minimum[low]**2

    return(out.reshape(shape))
"""),
    ("utils.py", """    maggies = np.zeros(mag.shape, dtype=np.float32)
    for k in np.arange(5, dtype=int):
        maggies[..., k] = 2. * b0[k] * np.sinh(- np.log(b0[k])
                                               - (0.4 * np.log(10.)
                                                  * mag[..., k]))
        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * extinction[..., k]))

    if(mag_err is not None):
        maggies_ivar = np.zeros(mag.shape, dtype=np.float32)
        for k in np.arange(5, dtype=int):
            maggies_err = (2. * b0[k] * np.cosh(- np.log(b0[k])
                                                - (0.4 * np.log(10.) *
                                                   mag[..., k])) *
                           0.4 * np.log(10.) * mag_err[..., k])
            # error of the extinction corrected maggies
            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
            maggies_ivar[..., k] = 1. / maggies_err**2

    if(mag_err is None):
        return(maggies)
    else:
        return(maggies, maggies_ivar)
""", """    pogson = 0.4 * np.log(10.)
    x = - np.log(b0) - pogson * mag
    scale = 2. * b0 * np.exp(pogson * extinction)
    maggies = np.float32(scale * np.sinh(x))
    if(mag_err is None):
        return(maggies)
    err = scale * np.cosh(x) * pogson * mag_err
    return(maggies, np.float32(1. / np.float64(err)**2))
"""),
    ("utils.py", """    if(maggies.ndim == 1):
        flambda = m2f * maggies
        if(ivar is not None):
            fivar = ivar / m2f**2
    else:
        flambda = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                           m2f) * maggies
        if(ivar is not None):
            fivar = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                             1. / m2f**2) * ivar

    if(ivar is not None):
        return(wave, flambda, fivar)
    else:
        return(wave, flambda)""", """    outputs = [wave, maggies * m2f]
    if(ivar is not None):
        outputs.append(ivar * m2f**-2)
    return(tuple(outputs))"""),
    ("utils.py", """    words = fpstr.split()

    nwave = 1221
""", """    words = fpstr.replace("\\n", " ").split()

    nwave = 1221
"""),
    ("utils.py", """    cspeed = 2.99792   # speed of light in 10^{18} A / s
    ab = 3.631e-2 / wave**2 * cspeed
    return(ab)
""", """    return(3.631e-2 * 2.99792 / wave**2)
"""),
]

SETS["kcorrect"] = [
    ("kcorrect.py", """        if(distance is not None):
            (array, n, distance, d1, d2,
             d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
            dfactor = 10.**(0.4 * dm)

        intsfh = coeffs.dot(self.templates.intsfh) * dfactor
        mremain = coeffs.dot(self.templates.mremain) * dfactor
        metals = (coeffs.dot(self.templates.mremain * self.templates.mets) *
                  dfactor)
        m50 = coeffs.dot(self.templates.m50) * dfactor
        m300 = coeffs.dot(self.templates.m300) * dfactor
        m1000 = coeffs.dot(self.templates.m1000) * dfactor

        if(array):
            ok = mremain > 0.
            metallicity = np.zeros(len(redshift), dtype=np.float32)
            b50 = np.zeros(len(redshift), dtype=np.float32)
            b300 = np.zeros(len(redshift), dtype=np.float32)
            b1000 = np.zeros(len(redshift), dtype=np.float32)
            metallicity[ok] = metals[ok] / mremain[ok]
            b50[ok] = m50[ok] / intsfh[ok]
            b300[ok] = m300[ok] / intsfh[ok]
            b1000[ok] = m1000[ok] / intsfh[ok]
        else:
            if(mremain > 0.):
                metallicity = metals / mremain
                b50 = m50 / intsfh
                b300 = m300 / intsfh
                b1000 = m1000 / intsfh
            else:
                metallicity = np.float32(0.)
                b50 = np.float32(0.)
                b300 = np.float32(0.)
                b1000 = np.float32(0.)
""", """        dm = self._dm(redshift, distance, coeffs)
        dfactor = 10.**(0.4 * dm)

        t = self.templates
        total = dict((name, np.dot(coeffs, getattr(t, name)))
                     for name in ('intsfh', 'mremain', 'm50', 'm300', 'm1000'))
        intsfh = total['intsfh'] * dfactor
        mremain = total['mremain'] * dfactor

        def ratio(a, b):
            out = np.zeros(np.shape(a), dtype=np.float32)
            np.divide(a, b, out=out, where=(total['mremain'] > 0.), casting='same_kind')
            return(out if array else out[()])

        metallicity = ratio(np.dot(coeffs, t.mets * t.mremain), total['mremain'])
        b50 = ratio(total['m50'], total['intsfh'])
        b300 = ratio(total['m300'], total['intsfh'])
        b1000 = ratio(total['m1000'], total['intsfh'])
"""),
    ("kcorrect.py", """    def derived_mc(self,""", """    def _dm(self, redshift, distance, coeffs):
        if(distance is None):
            return(self.cosmo.distmod(redshift).to_value(astropy.units.mag))
        distance = self._process_inputs(redshift=distance, coeffs=coeffs)[2]
        return(5. * np.log10(distance) + 25.)

    def derived_mc(self,"""),
    ("kcorrect.py", """        if(distance is not None):
            (array, n, distance, d1, d2,
             d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
            dm = 2.5 * np.log10(dfactor)
        else:
            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)

        k = self.kcorrect(redshift=redshift, coeffs=coeffs,
                          band_shift=band_shift)

        use_maggies = maggies[..., self.imap]
        use_ivar = ivar[..., self.imap]

        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))

        mags = np.zeros(use_maggies.shape, dtype=np.float32)
        mags[gd] = - 2.5 * np.log10(use_maggies[gd])

        absmag = np.zeros(use_maggies.shape, dtype=np.float32)

        if(array):
            dm = np.outer(dm, np.ones(len(self.responses_out),
                                      dtype=np.float32))
            absmag[gd] = mags[gd] - dm[gd] - k[gd]
        else:
            absmag[gd] = mags[gd] - dm - k[gd]

        absmag[bd] = - 9999.

        if(reconstruct):
            # model maggies in the rest frame output bands
            omaggies = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs,
                                            band_shift=band_shift)
            gd = np.where(omaggies > 0.)
            bd = np.where(omaggies <= 0.)
            omags = np.zeros(omaggies.shape, dtype=np.float32)
            omags[gd] = - 2.5 * np.log10(omaggies[gd])
            absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
            if(array):
                absmag_reconstruct[gd] = omags[gd] - dm[gd]
            else:
                absmag_reconstruct[gd] = omags[gd] - dm
            absmag_reconstruct[bd] = - 9999.

        if(limit):
            absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
            notzero = coeffs.sum(axis=-1, keepdims=True) > 0.
            gd = np.where((use_ivar > 0.) & notzero)
            bd = np.where((use_ivar <= 0.) | (notzero == False))

            lmags = np.zeros(use_maggies.shape, dtype=np.float32)
            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))

            if(array):
                absmag_limit[gd] = lmags[gd] - dm[gd] - k[gd]
            else:
                absmag_limit[gd] = lmags[gd] - dm - k[gd]
            absmag_limit[bd] = - 9999.

        return_list = [absmag]
        if(reconstruct):
            return_list.append(absmag_reconstruct)
        if(limit):
            return_list.append(absmag_limit)
        if(kcorrect):
            return_list.append(k)
        if(len(return_list) == 1):
            return(return_list[0])
        else:
            return(tuple(return_list))
""", """        dm = np.asarray(self._dm(redshift, distance, coeffs))[..., np.newaxis]
        k = self.kcorrect(redshift=redshift, coeffs=coeffs,
                          band_shift=band_shift)

        def magnitudes(flux, valid, offset):
            out = np.full(flux.shape, -9999., dtype=np.float32)
            with np.errstate(all='ignore'):
                mags = - 2.5 * np.log10(flux) - offset
            out[valid] = mags[valid]
            return(out)

        flux = np.take(maggies, self.imap, axis=-1)
        weight = np.take(ivar, self.imap, axis=-1)
        results = [magnitudes(flux, (flux > 0.) & (weight > 0.), dm + k)]
        if(reconstruct):
            model = self.reconstruct_out(redshift=0. * redshift, coeffs=coeffs,
                                         band_shift=band_shift)
            results.append(magnitudes(model, model > 0., dm))
        if(limit):
            with np.errstate(all='ignore'):
                sigma = 1. / np.sqrt(weight)
            anything = coeffs.sum(axis=-1, keepdims=True) > 0.
            results.append(magnitudes(sigma, (weight > 0.) & anything, dm + k))
        if(kcorrect):
            results.append(k)
        return(results[0] if len(results) == 1 else tuple(results))
"""),
    ("kcorrect.py", """        kcorrect = np.zeros(maggies_out.shape, dtype=np.float32)
        if(array):
            # check if coefficients are ever zero
            notzero = coeffs.sum(axis=-1) > 0
            nz_maggies_in = maggies_in[notzero, :]
            kcorrect[notzero, :] = (- 2.5 *
                                    np.log10(nz_maggies_in[:, self.imap] /
                                             maggies_out[notzero, :]))
        else:
            notzero = coeffs.sum(axis=-1) > 0
            if(notzero):
                kcorrect = - 2.5 * np.log10(maggies_in[self.imap] /
                                            maggies_out)

        return(kcorrect)
""", """        notzero = np.any(coeffs > 0, axis=-1, keepdims=True)
        with np.errstate(all='ignore'):
            ratio = np.where(notzero, maggies_in[..., self.imap] / maggies_out, 1.)
            return(0. - 2.5 * np.log10(ratio))
"""),
]

SETS["double"] = [
    # double precision throughout
    ("fitter.py", "        redshift = np.float32(redshift)\n\n        if(len", "        redshift = np.array(redshift, dtype=np.float64)\n\n        if(len"),
    ("fitter.py", "            maggies = np.float32(maggies)\n", "            maggies = np.array(maggies, dtype=np.float64)\n"),
    ("fitter.py", "            ivar = np.float32(ivar)\n", "            ivar = np.array(ivar, dtype=np.float64)\n"),
    ("fitter.py", "            coeffs = np.float32(coeffs)\n", "            coeffs = np.array(coeffs, dtype=np.float64)\n"),
    ("fitter.py", "        coeffs = np.zeros((n, self.templates.nsed), dtype=np.float32)\n", "        coeffs = np.zeros((n, self.templates.nsed))\n"),
]
