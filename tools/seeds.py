"""Planted bugs: SEEDS = [(id, property, edits, needs, what_it_breaks, demonstration)].  tools/mkseeds.py writes and validates them."""

OPT = '''
from scipy.optimize import nnls


def best(k, z, f, w):
    s = np.sqrt(np.float64(w))
    return nnls(np.float64(k.Amatrix(z)) * s[:, None], np.float64(f) * s)[0]


def chi2(k, z, f, w, c):
    return float(np.sum(w * (f - k.Amatrix(z).dot(np.float64(c)))**2))

'''

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


seed("c01-negative-clip", "C01", [("fitter", "        b = maggies * inverr\n", "        b = np.where(maggies > -1.e-8, maggies, 0.) * inverr\n")],
     "a significantly negative flux in a band with weight", "fits with negative fluxes are not optimal", OPT + '''
k = build()
z, w = 0.31, np.array([1., 4., 2., 1.])
f = k.Amatrix(z).dot([1., 2., 0.5])
f[0] = -0.8 * f[1]
c = k.fit_coeffs(redshift=z, maggies=f, ivar=w)
ok(chi2(k, z, f, w, c) <= chi2(k, z, f, w, best(k, z, f, w)) * 1.0001, "not the best fit", c, best(k, z, f, w))
''')

seed("c01-weight-cap", "C01", [("fitter", "        inverr = np.sqrt(ivar)\n", "        inverr = np.minimum(np.sqrt(ivar), np.float32(1.e+12))\n")],
     "fluxes of very different errors, some below 1e-12 maggies", "weights saturate for very precise (faint) measurements", OPT + '''
k = build()
z = 0.52
f = k.Amatrix(z).dot([1., 0.3, 2.]) * np.array([1., 1.2, 0.8, 1.1]) * 1e-14
w = np.array([1e26, 1e30, 1e28, 1e30])
c = k.fit_coeffs(redshift=z, maggies=f, ivar=w)
ok(chi2(k, z, f, w, c) <= chi2(k, z, f, w, best(k, z, np.float32(f), np.float32(w))) * 1.001, "not the best fit")
c1 = k.fit_coeffs(redshift=z, maggies=f * 1e14, ivar=w * 1e-28)
ok(near(c * 1e14, c1, 1e-3, 1e-3 * c1.max()), "fit depends on the scale of the fluxes", c, c1)
''')

seed("c01-small-coefficients", "C01", [("fitter", "            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))\n",
      "            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))\n            coeffs = np.where(coeffs > 1.e-6 * coeffs.max(), coeffs, 0.)\n"),
     ("fitter", "        if(mc == 0):\n            return(coeffs)\n        else:\n            coeffs_mc = np.zeros",
      "        if(not mc):\n            return(coeffs)\n        else:\n            coeffs_mc = np.zeros")],
     "templates of very different normalisation", "coefficients of bright templates are dropped although they carry most of the flux", OPT + '''
t = templates(3)
t.restframe_flux = t.restframe_flux * np.float32([[1.], [1e-9], [1e7]])
t.set_redshift(0.)
k = build(templates=t)
z, w = 0.2, np.ones(4)
f = k.Amatrix(z).dot([2., 1e9, 1e-7])
w = 1. / f**2
c = k.fit_coeffs(redshift=z, maggies=f, ivar=w)
ok(chi2(k, z, f, w, c) < 1e-3, "does not fit", c)
''')

seed("c02-first-template", "C02", [("kcorrect", "            notzero = coeffs.sum(axis=-1) > 0\n            nz_", "            notzero = coeffs[:, 0] > 0\n            nz_")],
     "a catalogue holding an object whose first coefficient is zero", "K-corrections of rows without the first template are zero", '''
k = build()
z, c = np.array([0.2, 0.5, 0.7]), np.array([[1., 0., 2.], [0., 3., 1.], [0., 0., 1.]])
a = k.kcorrect(redshift=z, coeffs=c)
b = np.array([k.kcorrect(redshift=z[i], coeffs=c[i]) for i in range(3)])
ok(near(a, b, 1e-4, 1e-4), a, b)
''')

seed("c02-all-young", "C02", [("kcorrect", "            ok = mremain > 0.\n            metall", "            ok = intsfh > m1000\n            metall")],
     "a catalogue holding an object fit by templates that formed all their stars within 1 Gyr",
     "birth parameters and metallicity of such rows are zero in catalogues", '''
k = build(templates=templates(3, M1000=np.array([0.3, 1.5, 0.5])))
z, c = np.array([0.2, 0.5]), np.array([[1., 0.5, 2.], [0., 3., 0.]])
a = k.derived(redshift=z, coeffs=c)
for i in range(2):
    b = k.derived(redshift=z[i], coeffs=c[i])
    for q in ("metallicity", "b50", "b300", "b1000"):
        ok(near(a[q][i], b[q]), q, a[q][i], b[q])
''')

seed("c02-matrix-memo", "C02", [("fitter", "            A = inverr_matrix * self.Amatrix(redshift)\n",
      "            if(getattr(self, '_lastz', None) != redshift):\n                self._lastA = inverr_matrix * self.Amatrix(redshift)\n"
      "                self._lastz = redshift\n            A = self._lastA\n")],
     "two consecutive objects of equal redshift and different errors", "the second one is fit with the first one's weights", '''
k = build()
f = k.Amatrix(0.4).dot([1., 2., 0.]) * np.array([1., 1.3, 0.8, 1.2])
w = np.array([1., 100., 1., 1.]) / f**2
v = np.array([1., 1., 100., 1.]) / f**2
alone = k.fit_coeffs(redshift=0.4, maggies=f, ivar=v)
k.fit_coeffs(redshift=0.1, maggies=f, ivar=v)
cat = k.fit_coeffs(redshift=np.array([0.4, 0.4]), maggies=np.array([f, f]), ivar=np.array([w, v]))
ok(near(cat[1], alone, 1e-4, 1e-5 * alone.max()), cat[1], alone)
''')

seed("c03-same-set", "C03", [("kcorrect", "            if(self.responses_out == self.responses):", "            if(set(self.responses_out) == set(self.responses)):")],
     "output bands that are a permutation of (or repeat) the observed bands", "output bands come in the order of the observed ones", '''
b = bands()
k = build(responses=b, responses_out=[b[2], b[0], b[3], b[1]], responses_map=[b[2], b[0], b[3], b[1]])
c = np.array([1., 0.4, 2.])
p = build(responses=b)
ok(near(k.kcorrect(redshift=0.3, coeffs=c), p.kcorrect(redshift=0.3, coeffs=c)[[2, 0, 3, 1]], 1e-4, 1e-4), k.kcorrect(redshift=0.3, coeffs=c))
''')

seed("c03-zero-redshift", "C03", [("kcorrect", "            kcorrect[notzero, :] = (- 2.5 *\n                                    np.log10(nz_maggies_in[:, self.imap] /\n"
      "                                             maggies_out[notzero, :]))",
      "            kcorrect[notzero, :] = np.where(redshift[notzero, np.newaxis] > 0., - 2.5 *\n                                    np.log10(nz_maggies_in[:, self.imap] /\n"
      "                                             maggies_out[notzero, :]), 0.)")],
     "a catalogue row at redshift exactly zero, with a band shift or other output bands", "its K-correction is zero although bands differ", '''
b = bands()
k = build(responses=b, responses_out=[b[1], b[2]], responses_map=[b[0], b[2]])
c = np.array([[1., 0.4, 2.], [1., 0.4, 2.]])
for bs in (0., 0.1):
    got = k.kcorrect(redshift=np.array([0., 0.3]), coeffs=c, band_shift=bs)
    ok(near(got[0], k.kcorrect(redshift=0., coeffs=c[0], band_shift=bs), 1e-4, 1e-4), bs, got)
''')

seed("c04-clamp", "C04", [("fitter", "return(interpolate.interp1d(redshifts, A, axis=0))",
      "return(interpolate.interp1d(redshifts, A, axis=0, bounds_error=False,\n                                    fill_value=(A[0], A[-1])))")],
     "a redshift that exceeds the range only together with the band shift", "fluxes of the range's end are returned instead of an error", '''
k = build()
c = np.ones(3)
for z, bs in ((0.95, 0.1), (1.2, 0.), (0.02, -0.1)):
    try:
        r = k.reconstruct(redshift=z, coeffs=c, band_shift=bs)
    except ValueError:
        continue
    ok(False, "no error at", z, bs, r)
''')

seed("c04-scalar-shift", "C04", [("fitter", "        maggies = maggies / (1. + band_shift)\n", "        if(array):\n            maggies = maggies / (1. + band_shift)\n")],
     "a single object reconstructed with a band shift", "its fluxes lack the band-shift normalisation", '''
k = build()
c = np.array([1., 2., 0.3])
one = k.reconstruct(redshift=0.4, coeffs=c, band_shift=0.1)
cat = k.reconstruct(redshift=np.array([0.4]), coeffs=c[None], band_shift=0.1)
ok(near(one, cat[0]), one, cat)
t = templates(3)
s = 0.3 + 0.1 * 1.3
k = build(redshift_range=[0., s], nredshift=4)
t.set_redshift(np.float32(s))
f = kcorrect.response.ResponseDict()
want = np.array([f[r].project(sed=t) for r in k.responses]).dot(c) / 1.1
ok(near(k.reconstruct(redshift=0.3 - 1e-7, coeffs=c, band_shift=0.1), want, 1e-3), want)
''')

seed("c04-nearest", "C04", [("fitter", "return(interpolate.interp1d(redshifts, A, axis=0))",
      "return(interpolate.interp1d(redshifts, A, axis=0,\n                                    kind='linear' if len(redshifts) > 20 else 'quadratic'))")],
     "a coarse grid of 20 redshifts or fewer", "fluxes between grid redshifts are not linearly interpolated", '''
k = build(nredshift=6)
c = np.array([1., 0., 2.])
g = np.array([k.reconstruct(redshift=z, coeffs=c) for z in k.redshifts])
z = k.redshifts[2] * np.float32(0.5) + k.redshifts[3] * np.float32(0.5)
ok(near(k.reconstruct(redshift=z, coeffs=c), 0.5 * (g[2] + g[3]), 1e-4), k.reconstruct(redshift=z, coeffs=c), 0.5 * (g[2] + g[3]))
''')

seed("c05-negative-weight", "C05", [("kcorrect", "        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))\n", "        bd = np.where((use_maggies <= 0.) | (use_ivar == 0.))\n")],
     "a band flagged with a negative inverse variance", "its absolute magnitude is 0 instead of -9999", '''
k = build()
m = k.absmag(redshift=0.2, maggies=np.array([1e-8, 2e-8, 3e-8, 4e-8]), ivar=np.array([1e18, -1., 1e18, 0.]), coeffs=np.array([1., 1., 1.]))
ok(m[1] == -9999. and m[3] == -9999. and m[0] > -100 and m[2] > -100, m)
''')

seed("c05-prefix-weights", "C05", [("kcorrect", "        use_ivar = ivar[..., self.imap]\n", "        use_ivar = ivar[..., :len(self.imap)]\n")],
     "a band map that is not the identity, and weights that differ between bands", "validity and limits use another band's inverse variance", '''
b = bands()
k = build(responses=b, responses_out=[b[0], b[1]], responses_map=[b[3], b[2]])
m, lim = k.absmag(redshift=0.2, maggies=np.array([1e-8, 2e-8, 3e-8, 4e-8]), ivar=np.array([0., 1e16, 1e17, 1e18]), coeffs=np.array([1., 1., 1.]),
                  limit=True)
ok(np.all(m > -100), m)
ok(abs(lim[0] - m[0] - 2.5 * np.log10(4e-8 * 1e9)) < 1e-3, m, lim)
''')

seed("c05-limit-floor", "C05", [("kcorrect", "            lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))",
      "            lmags[gd] = - 2.5 * np.log10(np.minimum(1. / np.sqrt(use_ivar[gd]), 1.e-7))")],
     "errors above 1e-7 maggies", "1-sigma limits of shallow data are too faint", '''
k = build()
m, lim = k.absmag(redshift=0.2, maggies=np.ones(4) * 1e-6, ivar=np.array([1e12, 1e13, 1e14, 1e18]), coeffs=np.array([1., 1., 1.]), limit=True)
ok(near(lim - m, 2.5 * np.log10(1e-6 * np.sqrt([1e12, 1e13, 1e14, 1e18])), 1e-3, 1e-3), lim - m)
''')

seed("c06-no-recent-stars", "C06", [("kcorrect", "            if(mremain > 0.):\n                metallicity = metals / mremain\n",
      "            if(m1000 > 0.):\n                metallicity = metals / mremain\n")],
     "a single object whose templates formed no stars in the last Gyr", "its metallicity is zero", '''
z = np.zeros(3)
k = build(templates=templates(3, M1000=z, M300=z, M50=z))
d = k.derived(redshift=0.2, coeffs=np.array([1., 2., 1.]))
t = k.templates
c = np.array([1., 2., 1.])
ok(near(d["metallicity"], c.dot(t.mremain * t.mets) / c.dot(t.mremain)), d["metallicity"])
ok(d["b50"] == 0 and d["b300"] == 0 and d["b1000"] == 0, d)
''')

seed("c06-faint-luminosity", "C06", [("kcorrect", "        mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)\n        ok = rmaggies_solar > 0.",
      "        mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)\n        ok = rmaggies_solar > 1.e-3")],
     "an object of luminosity below 1e-3 solar (e.g. coefficients in small units, or a small given distance)", "its mass-to-light ratio is zero", '''
k = build()
c = np.array([1., 2., 0.5])
a = k.derived(redshift=0.2, coeffs=c)["mtol"]
b = k.derived(redshift=0.2, coeffs=c * 1e-20, distance=1e-5)["mtol"]
ok(near(a, b, 1e-3), a, b)
''')

seed("c07-random-walk", "C07", [("fitter", "                maggies_mc[:, imc] = maggies\n",
      "                maggies_mc[:, imc] = maggies if imc == 0 else maggies_mc[:, imc - 1]\n")],
     "more than one Monte Carlo set", "perturbations accumulate from one set to the next", '''
k = build()
f = np.ones(4)
c, cm, fm = k.fit_coeffs(redshift=0.2, maggies=f, ivar=np.ones(4) * 100., mc=400)
r = (fm - f[:, None]) * 10.
ok(np.all(np.abs(r) < 6.5), "perturbations up to", np.abs(r).max(), "sigma")
''')

seed("c07-positive-only", "C07", [("fitter", "            igd = np.where(inverr > 0)[0]\n", "            igd = np.where((inverr > 0) & (maggies > 0))[0]\n")],
     "a band with a negative or zero measured flux", "such bands are not perturbed", '''
k = build()
c, cm, fm = k.fit_coeffs(redshift=0.2, maggies=np.array([1., -0.2, 1., 0.]), ivar=np.ones(4) * 100., mc=5)
ok(np.all(fm.std(axis=-1) > 0), fm)
''')

seed("c07-reseeded", "C07", [("fitter", "        b = maggies * inverr\n", "        b = maggies * inverr\n        np.random.seed(int(1.e+4 * redshift))\n"),
                             ("fitter", "            err = 1. / inverr[igd]\n", "            err = np.float32(1.) / inverr[igd]\n")],
     "two objects of nearly equal redshift in one Monte Carlo run", "their perturbations are the same numbers", '''
k = build()
c, cm, fm = k.fit_coeffs(redshift=np.array([0.2, 0.2]), maggies=np.ones((2, 4)), ivar=np.ones((2, 4)) * 100., mc=3)
ok(not np.any(fm[0] == fm[1]), "the same draws for two objects", fm)
''')

seed("c08-own-offsets", "C08", [("utils", "            ab_maggies[..., i] = maggies[..., i] * cabfac\n", "            ab_maggies[..., i] = maggies[..., i] * min(cabfac, 1.05)\n")],
     "own offsets below -0.053 mag with a catalogue", "the correction saturates", '''
m = np.ones((2, 5))
fix = [0.1, 0., -0.2, 0.05, 0.3]
ok(near(kcorrect.utils.sdss_ab_correct(maggies=m, abfix=fix), np.outer(np.ones(2), 10.**(-0.4 * np.array(fix)))))
''')

seed("c09-row-index", "C09", [("utils", "                ioklow = iok[np.where(ferr < floor[i])[0]]", "                ioklow = np.where(ferr < floor[i])[0]")],
     "a catalogue in which an earlier object has no valid inverse variance in a band", "the floor is applied to the wrong objects", '''
m = np.array([[1., 1.], [2., 3.], [4., 1.]])
w = np.array([[0., 1e6], [1e6, 1e6], [1., 1e6]])
got = kcorrect.utils.error_floor(floor=[0.05, 0.05], maggies=m, ivar=w)
want = np.array([kcorrect.utils.error_floor(floor=[0.05, 0.05], maggies=m[i], ivar=w[i]) for i in range(3)])
ok(near(got, want), got, want)
''')

seed("c09-negative-flux", "C09", [("utils", "            iok = np.where(ivar[:, i] > 0.)[0]", "            iok = np.where((ivar[:, i] > 0.) & (maggies[:, i] > 0.))[0]")],
     "negative fluxes in a catalogue", "no floor is applied to them", '''
m, w = np.array([[-1.], [2.]]), np.array([[1e6], [1e6]])
ok(near(kcorrect.utils.error_floor(floor=[0.05], maggies=m, ivar=w), 1. / (0.05 * m)**2), kcorrect.utils.error_floor(floor=[0.05], maggies=m, ivar=w))
''')

seed("c10-catalogue-weights", "C10", [("utils", "                           1. / m2f**2) * ivar", "                           1. / m2f**2) * ivar[0]")],
     "a catalogue whose objects have different inverse variances", "every object gets the first one's", '''
b = bands()
m, w = np.ones((2, 4)), np.array([[1., 2., 3., 4.], [4., 1., 1., 7.]])
wave, f, v = kcorrect.utils.maggies2flambda(maggies=m, ivar=w, responses=b)
one = kcorrect.utils.maggies2flambda(maggies=m[1], ivar=w[1], responses=b)[2]
ok(near(v[1], one), v[1], one)
''')

seed("c10-repeated-bands", "C10", [("utils", "    wave = np.array([r[x].lambda_eff for x in responses],",
      "    index = {x: i for i, x in enumerate(responses)}\n    wave = np.array([r[x].lambda_eff for x in sorted(responses, key=index.get)],")],
     "a list of bands with a repetition that is not adjacent", "bands come in another order than asked for", '''
b = bands()
q = [b[0], b[1], b[0], b[2]]
wave, f = kcorrect.utils.maggies2flambda(maggies=np.ones(4), responses=q)
r = kcorrect.response.ResponseDict()
ok(near(wave, [r[x].lambda_eff for x in q], 1e-6), wave)
''')

seed("c11-negative-spectrum", "C11", [("response", "        numer = np.zeros(nsed, dtype=np.float32)\n        if(nsed == 1):", "        integrate_sed = np.maximum(integrate_sed, 0.)\n        numer = np.zeros(nsed, dtype=np.float32)\n        if(nsed < 2):")],
     "a spectrum of negative flux (noise, or a difference of spectra)", "its projection is zero: not linear", '''
r = kcorrect.response.Response(filename=band("a", 5000., 500.) + ".dat")
w = np.linspace(3000., 8000., 200)
ok(near(r.project(wave=w, flux=-np.ones(200)), -r.project(wave=w, flux=np.ones(200))), r.project(wave=w, flux=-np.ones(200)))
''')

seed("c11-subsampling", "C11", [("response", "        keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])",
      "        every = max(1, len(sed_wave) // (100 * self.nwave))\n        keep = ((sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1]) &\n"
      "                (np.arange(len(sed_wave)) % every == 0))")],
     "a spectrum sampled much more finely than the bandpass, with narrow features", "narrow lines between the kept samples are lost", '''
r = kcorrect.response.Response(filename=band("a", 5000., 500.) + ".dat")
w = np.linspace(4000., 6000., 8001)
f = np.exp(-0.5 * ((w - 5003.1) / 0.4)**2)
got = r.project(wave=w, flux=f)
R = np.interp(w, r.wave, r.response)
want = np.trapezoid(f * R * w, w) / np.trapezoid(kcorrect.utils.sed_ab(w) * R * w, w)
ok(near(got, want, 0.02), got, want)
''')

seed("c12-two-peaks", "C12", [("response", "        ilower = np.where(iresponse >= 0.5)[0][-1]\n",
      "        peak = np.argmax(iresponse)\n        ilower = peak + np.append(iresponse[peak:] < 0.5, True).argmax() - 1\n")],
     "a bandpass with a second peak above half maximum redwards", "the upper FWHM limit is that of the first peak", '''
w = np.linspace(5000., 6000., 11)
r = np.array([0., .5, 1., .8, .3, .2, .4, .7, .8, .4, 0.])
R = kcorrect.response.Response(wave=w, response=r)
ok(5800. < R.fwhm_high < 5900. and 5000. < R.fwhm_low < 5200., R.fwhm_low, R.fwhm_high)
''')

seed("c12-stale-width", "C12", [("response", "        self.fwhm_low = fwhm_low\n        self.fwhm_high = fwhm_high\n        self.fwhm = fwhm_high - fwhm_low\n        return",
      "        if(self.fwhm is None):\n            self.fwhm_low = fwhm_low\n            self.fwhm_high = fwhm_high\n            self.fwhm = fwhm_high - fwhm_low\n        return")],
     "a Response object reading a second file", "its FWHM remains that of the first", '''
a, b = band("a", 5000., 500.), band("b", 8000., 300.)
R = kcorrect.response.Response(filename=a + ".dat")
R.fromdat(b + ".dat")
ok(near(R.fwhm_low, kcorrect.response.Response(filename=b + ".dat").fwhm_low), R.fwhm_low)
''')

seed("c12-fits-order", "C12", [("response", "        isort = np.argsort(response['wave'])\n", "        isort = np.arange(self.nwave)\n")],
     "a FITS response stored from the red to the blue", "wavelengths are decreasing and the summary quantities wrong", '''
w = np.linspace(5000., 6000., 11)
r = 1. - ((w - 5400.) / 700.)**2
out = np.zeros(1, np.dtype([("wave", "f8", 11), ("response", "f8", 11)]))
out["wave"], out["response"] = w[::-1], r[::-1]
fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(out, name="FLUX")]).writeto(path("r.fits"))
R = kcorrect.response.Response()
R.fromfits(path("r.fits"))
ok(near(R.wave, w) and near(R.response, r), R.wave)
''')

seed("c13-shipped-first", "C13", [("response", "        if(os.path.isabs(filename)):\n            infilename = filename\n        else:\n            infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data',\n                                      'responses', filename)\n",
      "        infilename = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'responses',\n                                  os.path.basename(filename))\n"
      "        if(not os.path.exists(infilename)):\n            infilename = filename\n")],
     "an own response file named like a shipped one", "the shipped file is read instead", '''
f = kcorrect.response.ResponseDict()
n = band("sdss_r0", 9000., 400.)
f.load_response(n)
ok(abs(f[n].lambda_eff - 9000.) < 100., f[n].lambda_eff)
''')

seed("c13-reload-once", "C13", [("response", "        if((response in self) & (reload is False)):\n            return\n",
      "        if((response in self) & ((reload is False) | hasattr(self.get(response), '_again'))):\n            return\n"),
     ("response", "        loaded.fromdat(filename='{n}.dat'.format(n=response))\n        self[response] = loaded\n        return",
      "        loaded.fromdat(filename='{n}.dat'.format(n=response))\n        if(reload):\n            loaded._again = True\n        self[response] = loaded\n        return")],
     "a response reloaded twice", "the second explicit reload does not read the file", '''
f = kcorrect.response.ResponseDict()
n = band("a", 5000., 400.)
for c in (5000., 6000., 7000., 8000.):
    band("a", c, 400.)
    f.load_response(n, reload=True)
    ok(abs(f[n].lambda_eff - c) < 100., c, f[n].lambda_eff)
''')

seed("c14-rest-interpolator", "C14", [("template", "        self.redshift = redshift\n        if(self.interpolate):\n            self.set_interp()\n        return\n\n    def plot",
      "        self.redshift = redshift\n        if(self.interpolate and redshift != 0.):\n            self.set_interp()\n        return\n\n    def plot")],
     "an SED redshifted and set back to zero", "its interpolator remains that of the earlier redshift", '''
t = templates(2)
a = t.interp(np.array([5000., 6000.])).copy()
t.set_redshift(0.4)
t.set_redshift(0.)
ok(near(t.interp(np.array([5000., 6000.])), a), "interpolator differs")
''')

seed("c14-in-place", "C14", [("template", "        self.flux = self.restframe_flux / (1. + redshift)\n",
      "        if(self.flux is self.restframe_flux):\n            self.flux = self.restframe_flux / (1. + redshift)\n        else:\n"
      "            self.flux *= (1. + self.redshift) / (1. + redshift)\n")],
     "many changes of redshift", "rounding errors accumulate: flux depends on the history", '''
t = templates(2)
t.set_redshift(0.37)
a = t.flux.copy()
for i in range(3000):
    t.set_redshift(0.1 + 0.0007 * (i % 997))
t.set_redshift(0.37)
ok(np.array_equal(a, t.flux), np.abs(t.flux / a - 1.).max())
''')

seed("c15-observed-spectrum", "C15", [("template", "            out['flux'] = self.restframe_flux\n", "            out['flux'] = self.flux\n")],
     "saving while redshifted", "the redshifted fluxes are stored as rest-frame ones", '''
t = templates(2)
r = t.restframe_flux.copy()
t.set_redshift(0.4)
t.tofits(path("u.fits"))
ok(near(kcorrect.template.Template(filename=path("u.fits")).restframe_flux, r))
''')

seed("c15-flux-first", "C15", [("template", "            sed = sed_hdus[ext].data\n", "            sed = sed_hdus['FLUX' if 'FLUX' in sed_hdus else ext].data\n")],
     "a file with several spectra extensions, FLUX among them", "another extension than the one asked for is read", '''
w = np.linspace(4000., 5000., 30)
a = kcorrect.template.SED(wave=w, flux=np.ones(30))
b = kcorrect.template.SED(wave=w, flux=np.ones(30) * 2.)
a.tofits(path("s.fits"))
b.tofits(path("s.fits"), ext="SECOND", clobber=False)
ok(kcorrect.template.SED(filename=path("s.fits"), ext="SECOND").restframe_flux[0, 0] == 2., "read the wrong spectrum")
ok(kcorrect.template.SED(filename=path("s.fits")).restframe_flux[0, 0] == 1.)
''')

seed("c15-no-m50", "C15", [("template", "        hdu = fits.ImageHDU(self.m50, name='M50')\n        hdul.append(hdu)\n",
      "        if(self.m50.sum() > 1.e-3):\n            hdu = fits.ImageHDU(self.m50, name='M50')\n            hdul.append(hdu)\n")],
     "templates with small recent star formation", "m50 is lost in a round trip", '''
t = templates(2, M50=np.array([1e-5, 3e-4]))
t.tofits(path("u.fits"))
ok(near(kcorrect.template.Template(filename=path("u.fits")).m50, t.m50), kcorrect.template.Template(filename=path("u.fits")).m50)
''')

seed("c16-same-number", "C16", [("kcorrect", "        Aout = self.AmatrixOut(self.redshifts)\n",
      "        Aout = A\n        if(len(self.responses_out) != len(self.responses)):\n            Aout = self.AmatrixOut(self.redshifts)\n")],
     "as many output bands as observed bands, but other ones", "the reloaded object reconstructs the observed bands as output", '''
b = bands()
k = build(responses=b[:2], responses_out=b[2:], responses_map=b[:2])
k.tofits(path("k.fits"))
x = kcorrect.kcorrect.Kcorrect(filename=path("k.fits"))
c = np.array([1., 0.2, 3.])
ok(near(x.reconstruct_out(redshift=0.2, coeffs=c), k.reconstruct_out(redshift=0.2, coeffs=c)))
''')

seed("c16-grid-from-zero", "C16", [("kcorrect", "        self.redshifts = hdul['REDSHIFTS'].data\n",
      "        self.redshifts = np.linspace(0., self.redshift_range[1], self.nredshift)\n")],
     "a redshift range not starting at zero", "the reloaded object's grid starts at zero", '''
k = build(redshift_range=[0.2, 0.9])
k.tofits(path("k.fits"))
x = kcorrect.kcorrect.Kcorrect(filename=path("k.fits"))
c = np.array([1., 0.2, 3.])
ok(near(x.reconstruct(redshift=0.5, coeffs=c), k.reconstruct(redshift=0.5, coeffs=c)))
''')

seed("c16-sorted-map", "C16", [("kcorrect", "        responses_map['responses_map'] = np.array(self.responses_map)\n",
      "        responses_map['responses_map'] = np.array([self.responses[i] for i in sorted(self.imap)])\n")],
     "a band map that is not in the order of the observed bands", "the reloaded object maps bands differently", '''
b = bands()
k = build(responses=b, responses_out=[b[0], b[1]], responses_map=[b[3], b[0]])
k.tofits(path("k.fits"))
x = kcorrect.kcorrect.Kcorrect(filename=path("k.fits"))
c = np.array([1., 0.2, 3.])
ok(near(x.kcorrect(redshift=0.2, coeffs=c), k.kcorrect(redshift=0.2, coeffs=c), 1e-4, 1e-4))
''')

seed("c17-wiped-fluxes", "C17", [("fitter", "        # Call single\n        if(n == 1):\n            if(mc == 0):",
      "        # Call single\n        if(mc == 0):\n            maggies[ivar <= 0.] = 0.\n        if(maggies.size == len(self.responses)):\n            if(mc == 0):")],
     "single-precision arrays with bands without weight", "the caller's fluxes in such bands are overwritten with zero", '''
k = build()
m = np.float32([[1., 2., 3., 4.], [4., 3., 2., 1.]])
w = np.float32([[1., 0., 1., 1.], [1., 1., 1., 0.]])
q = m.copy()
k.fit_coeffs(redshift=np.float32([0.1, 0.2]), maggies=m, ivar=w)
ok(np.array_equal(m, q), m)
''')

seed("c17-templates-left", "C17", [("fitter", "        # Return templates to z=0\n        self.templates.set_redshift(redshift=0.)\n",
      "        # Return templates to the first redshift\n        self.templates.set_redshift(redshift=self.redshifts[0])\n")],
     "a redshift range not starting at zero", "building an object leaves the caller's templates redshifted", '''
t = templates(2)
r = kcorrect.response.Response(filename=band("z", 6000., 300.) + ".dat")
a = r.project(sed=t)
build(templates=t, redshift_range=[0.3, 0.6])
ok(near(r.project(sed=t), a), "the shared templates are not at redshift zero")
''')

seed("c18-same-budget", "C18", [("fitter", "            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),\n                                          maxiter=A.shape[1] * 100)",
      "            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),\n                                          maxiter=A.shape[1] * 3)")],
     "the solver giving up with its default number of iterations", "the retry has no larger budget and fails as well", '''
import scipy.optimize
real = scipy.optimize.nnls


def nnls(A, b, maxiter=None, **kw):
    if maxiter is None or maxiter <= 3 * A.shape[1]:
        raise RuntimeError("Maximum number of iterations reached.")
    return real(A, b, maxiter=maxiter, **kw)


k = build()
f = np.array([1., 2., 3., 1.])
want = k.fit_coeffs(redshift=0.2, maggies=f, ivar=np.ones(4))
scipy.optimize.nnls = nnls
ok(near(k.fit_coeffs(redshift=0.2, maggies=f, ivar=np.ones(4)), want))
''')

seed("c18-best-fit-instead", "C18", [("fitter", "                except RuntimeError:\n                    tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc),\n"
      "                                                         maxiter=A.shape[1] * 100)", "                except RuntimeError:\n                    tmp_coeffs_mc = coeffs")],
     "the solver giving up on a Monte Carlo draw", "that draw's coefficients are the best fit's", '''
import scipy.optimize
real = scipy.optimize.nnls
n = [0]


def nnls(A, b, maxiter=None, **kw):
    n[0] += 1
    if n[0] == 3:
        raise RuntimeError("Maximum number of iterations reached.")
    return real(A, b, maxiter=maxiter, **kw)


k = build()
f = k.Amatrix(0.2).dot([1., 2., 1.])
scipy.optimize.nnls = nnls
c, cm, fm = k.fit_coeffs(redshift=0.2, maggies=f, ivar=100. / f**2, mc=3)
scipy.optimize.nnls = real
for i in range(3):
    ok(near(cm[:, i], k.fit_coeffs(redshift=0.2, maggies=fm[:, i], ivar=100. / f**2), 1e-3, 1e-4), i, cm)
''')

seed("c18-swallowed", "C18", [("fitter", "            coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),\n                                          maxiter=A.shape[1] * 100)",
      "            try:\n                coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b),\n                                              maxiter=A.shape[1] * 100)\n"
      "            except RuntimeError:\n                coeffs = default_zeros")],
     "the solver failing for good", "zero coefficients are returned instead of an error", '''
import scipy.optimize


def nnls(*a, **kw):
    raise RuntimeError("Maximum number of iterations reached.")


k = build()
scipy.optimize.nnls = nnls
try:
    c = k.fit_coeffs(redshift=0.2, maggies=np.ones(4), ivar=np.ones(4))
except RuntimeError:
    sys.exit(0)
ok(False, "a result although the solver failed:", c)
''')

seed("c19-shared-buffer", "C19", [("utils", "    fp = open(filename, \"r\")\n    fpstr = fp.read()\n    fp.close\n",
      "    global _file, _text\n    if(globals().get('_file') != filename):\n        _file = filename\n        _text = open(filename, \"r\").read()\n    fpstr = _text\n")],
     "a thread reading a model file while another has begun to read the same one", "it gets the previously read file's content: wrong solar magnitudes", '''
import threading
import time
real = open
want = kcorrect.response.Response(filename=band("a", 5000., 500.) + ".dat").solar_magnitude


def slow(name, *a, **kw):
    if "lcbsun" in str(name):
        time.sleep(1.)
    return real(name, *a, **kw)


kcorrect.utils.open = slow
got = {}


def load(i):
    time.sleep(0.5 * i)
    n = path("a")
    f = kcorrect.response.ResponseDict()
    r = kcorrect.response.Response(filename=n + ".dat")
    got[i] = r.solar_magnitude


band("a", 5000., 500.)
t = [threading.Thread(target=load, args=(i,)) for i in range(2)]
[x.start() for x in t]
[x.join() for x in t]
ok(len(got) == 2 and all(abs(float(v) - float(want)) < 1e-4 for v in got.values()), got, want)
''')

seed("c19-shared-grid", "C19", [("response", "        integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))\n",
      "        global _grid\n        _grid = np.unique(np.append(sed_wave[keep], self.wave))\n        integrate_wave = _grid\n"),
     ("response", "        integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *\n                           integrate_response * integrate_wave)\n        denom = integrate.trapezoid(integrand_denom, integrate_wave)\n",
      "        integrand_denom = (kcorrect.utils.sed_ab(_grid) *\n                           self.interp(_grid) * _grid)\n        denom = integrate.trapezoid(integrand_denom, _grid)\n")],
     "a second thread projecting onto another bandpass between the two integrals", "responses loaded concurrently get wrong solar and Vega magnitudes", '''
import threading
b = bands()
want = {n: kcorrect.response.Response(filename=n + ".dat").solar_magnitude for n in b}
n0, n1 = b[0], b[3]
real = kcorrect.response.integrate.trapezoid
me = threading.local()
first, second = threading.Event(), threading.Event()


class Integrate:
    """scipy.integrate, pausing the first thread's first projection between its integrals"""

    def __getattr__(self, name):
        import scipy.integrate
        return getattr(scipy.integrate, name)

    def trapezoid(self, *a, **kw):
        r = real(*a, **kw)
        if getattr(me, "first", False) and not first.is_set() and getattr(me, "projecting", False):
            first.set()
            second.wait(5.)
        return r


kcorrect.response.integrate = Integrate()
project = kcorrect.response.Response.project


def traced(self, *a, **kw):
    me.projecting = True
    try:
        return project(self, *a, **kw)
    finally:
        me.projecting = False


kcorrect.response.Response.project = traced
f = kcorrect.response.ResponseDict()


def one():
    me.first = True
    f.load_response(n0)


def two():
    first.wait(5.)
    f.load_response(n1)
    second.set()


t = [threading.Thread(target=x) for x in (one, two)]
[x.start() for x in t]
[x.join() for x in t]
for n in (n0, n1):
    ok(f[n].solar_magnitude is not None and abs(float(f[n].solar_magnitude) - float(want[n])) < 1e-4, n, f[n].solar_magnitude, want[n])
''')

seed("c20-long-map", "C20", [("kcorrect", "            if(len(responses_map) != len(responses_out)):", "            if(len(responses_map) < len(responses_out)):")],
     "a map with more bands than there are output bands", "it is accepted", '''
b = bands()
try:
    build(responses=b[:3], responses_out=[b[1], b[2]], responses_map=b[:3])
except ValueError:
    sys.exit(0)
ok(False, "map longer than the output bands accepted")
''')

seed("c20-extra-rows", "C20", [("fitter", "                if(maggies.shape[0] != n):", "                if(maggies.shape[0] < n):"),
                               ("fitter", "                if(ivar.shape[0] != n):", "                if(ivar.shape[0] < n):")],
     "a catalogue with more rows than redshifts", "the rows that belong to no redshift are ignored without a word", '''
k = build()
try:
    k.fit_coeffs(redshift=np.array([0.1, 0.2]), maggies=np.ones((3, 4)), ivar=np.ones((3, 4)))
except (ValueError, TypeError):
    sys.exit(0)
ok(False, "accepted")
''')

seed("c20-transposed", "C20", [("fitter", "                if(ivar.shape[0] != n):\n                    raise ValueError(\"ivar must have values for each redshift\")\n                if(ivar.shape[1] != len(self.responses)):",
      "                if(ivar.size != n * len(self.responses)):")],
     "inverse variances with the axes swapped, as many objects as fit", "a transposed array is accepted", '''
k = build()
try:
    k.absmag(redshift=np.array([0.1, 0.2]), maggies=np.ones((2, 4)), ivar=np.ones((4, 2)), coeffs=np.ones((2, 3)))
except (ValueError, TypeError):
    pass
else:
    ok(False, "transposed inverse variances accepted")
try:
    k.fit_coeffs(redshift=np.array([0.1, 0.2]), maggies=np.ones((2, 4)), ivar=np.ones((4, 2)))
except (ValueError, TypeError):
    sys.exit(0)
ok(False, "transposed inverse variances accepted")
''')

seed("c21-chunk-edge", "C21", [("fitter", "                        ised_end = ised + nchunk\n", "                        ised_end = ised + nchunk - 1\n")],
     "1000 or more templates that are not interpolated", "the last template of each group of 1000 has no flux", '''
t = templates(2)
t.restframe_flux = np.float32(np.outer(np.linspace(1., 2., 1003), t.restframe_flux[0]))
t.nsed = 1003
t.interpolate = False
for p in ("intsfh", "mremain", "mets", "m50", "m300", "m1000"):
    setattr(t, p, np.ones(1003))
t.set_redshift(0.)
k = build(templates=t, nredshift=2, redshift_range=[0., 0.1])
A = k.Amatrix(0.)
ok(near(A / A[:, :1], np.outer(np.ones(4), np.linspace(1., 2., 1003)), 1e-3), "model fluxes differ")
''')

seed("c21-many", "C21", [("response", "            for ised in np.arange(nsed, dtype=int):\n", "            for ised in np.arange(min(nsed, 512), dtype=int):\n")],
     "more than 512 spectra at once", "the fluxes of the others are zero", '''
r = kcorrect.response.Response(filename=band("a", 5000., 500.) + ".dat")
w = np.linspace(3000., 8000., 60)
f = np.outer(np.linspace(1., 2., 600), np.ones(60))
g = r.project(wave=w, flux=f)
ok(near(g / g[0], np.linspace(1., 2., 600), 1e-4), g[-5:])
''')

seed("c22-optional-aout", "C22", [("kcorrect", "        Aout = hdul['Aout'].data\n", "        Aout = hdul['Aout'].data if 'AOUT' in hdul else A\n"),
     ("kcorrect", "        Aout = self.AmatrixOut(self.redshifts)\n        hdu = fits.ImageHDU(Aout, name='AOUT')\n        hdul.append(hdu)\n",
      "        # same bands, same matrix\n        if(self.AmatrixOut is not self.Amatrix):\n            Aout = self.AmatrixOut(self.redshifts)\n            hdu = fits.ImageHDU(Aout, name='AOUT')\n            hdul.append(hdu)\n")],
     "a save killed before its last extension is written", "the file reloads as an object with the observed bands' matrix for its output bands", '''
b = bands()
k = build(responses=b[:2], responses_out=b[2:], responses_map=b[:2])
k.tofits(path("k.fits"))
with fits.open(path("k.fits")) as h:
    cut = h["AOUT"]._header_offset
with open(path("k.fits"), "rb") as fp:
    data = fp.read()
with open(path("cut.fits"), "wb") as fp:
    fp.write(data[:cut])
try:
    x = kcorrect.kcorrect.Kcorrect(filename=path("cut.fits"))
except Exception:
    sys.exit(0)
c = np.array([1., 0.2, 3.])
ok(near(x.reconstruct_out(redshift=0.2, coeffs=c), k.reconstruct_out(redshift=0.2, coeffs=c)), "incomplete file read as an object without an error")
''')

seed("c23-last-band", "C23", [("kcorrect", "            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])\n            maggies = np.array(maggies, dtype=np.float32)\n            maggies[..., 2:7] = smaggies\n            return(maggies)",
      "            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])\n            maggies = np.array(maggies, dtype=np.float32)\n            maggies[..., 2:6] = smaggies[..., :4]\n            return(maggies)")],
     "correcting GALEX-SDSS-2MASS fluxes without inverse variances", "z is not corrected", '''
m = np.ones((2, 10))
k = kcorrect.kcorrect.KcorrectGST(templates=templates(2), nredshift=2, redshift_range=[0., 0.1])
a, w = k.to_ab(maggies=m, ivar=m)
b = k.to_ab(maggies=m)
ok(near(a, b, 1e-6), a, b)
''')

seed("c23-weights", "C23", [("fitter", "                    maggies, ivar = self.to_ab(maggies=maggies, ivar=ivar)", "                    maggies, dum = self.to_ab(maggies=maggies, ivar=ivar)")],
     "an object with the AB-correction flag on and inverse variances that matter", "inverse variances are not corrected", '''
t = templates(3)
k = kcorrect.kcorrect.KcorrectSDSS(templates=t, nredshift=3, redshift_range=[0., 0.4])
n = kcorrect.kcorrect.KcorrectSDSS(templates=t, nredshift=3, redshift_range=[0., 0.4], abcorrect=False)
f = np.float32([1., 3., 2., 5., 4.]) * np.float32(1e-8)
w = np.float32(np.ones(5) * 1e16)
a, v = kcorrect.utils.sdss_ab_correct(maggies=f, ivar=w)
x, y = k.fit_coeffs(redshift=0.2, maggies=f, ivar=w), n.fit_coeffs(redshift=0.2, maggies=a, ivar=v)
ok(near(x, y, 1e-4, 1e-5 * y.max()), x, y)
''')

seed("c23-asinh-twice", "C23", [("kcorrect", "        coeffs = self.fit_coeffs(redshift=redshift, maggies=maggies, ivar=ivar)\n        return(coeffs)",
      "        if(self.abcorrect and maggies.ndim > 1):\n            maggies, ivar = self.to_ab(maggies=maggies, ivar=ivar)\n        coeffs = self.fit_coeffs(redshift, maggies, ivar)\n        return(coeffs)")],
     "a catalogue of asinh magnitudes", "the AB correction is applied twice", '''
k = kcorrect.kcorrect.KcorrectSDSS(templates=templates(3), nredshift=3, redshift_range=[0., 0.4])
mag, err = np.array([19., 18., 17.5, 17.2, 17.]), np.ones(5) * 0.02
one = k.fit_coeffs_asinh(redshift=0.2, mag=mag, mag_err=err)
two = k.fit_coeffs_asinh(redshift=np.array([0.2, 0.2]), mag=np.array([mag, mag]), mag_err=np.array([err, err]))
ok(near(two[1], one, 1e-4, 1e-5 * one.max()), one, two)
''')

BASEL = '''

def write(models):
    rng = np.linspace(1., 2., 1221)
    with open(path("m.ori"), "w") as fp:
        for i in range(0, 1221, 8):
            fp.write(" ".join("%.3f" % x for x in (100. + np.arange(1221.))[i:i + 8]) + "\\n")
        for j, m in enumerate(models):
            fp.write("%d %g %g %g %g %g\\n" % m)
            for i in range(0, 1221, 8):
                fp.write(" ".join("%.5e" % x for x in ((j + 1.) * rng)[i:i + 8]) + "\\n")


M = [(1, 5000., 4.5, 0., 2., 0.71), (2, 6000., 4., -0.5, 1., 0.72), (3, 7000., 3.5, -1., 3., 0.73), (4, 8000., 3., 0.2, 4., 0.7)]
'''

seed("c24-stride", "C24", [("utils", "        start = nwave + unit * (nwave + 6)", "        start = nwave + unit * nwave + 6 * min(unit, 2)")],
     "a file with more than three models", "parameters and fluxes of later models are shifted", BASEL + '''
write(M)
info, wave, flux = kcorrect.utils.read_basel(path("m.ori"))
ok(near(info["teff"], [m[1] for m in M]) and near(flux[:, 0], [1., 2., 3., 4.], 1e-3), info, flux[:, 0])
''')

seed("c24-first-metallicity", "C24", [("utils", "        mh[unit] = np.float32(words[start + 3])", "        mh[unit] = np.float32(words[nwave + 3])")],
     "a file with models of different metallicity", "every model gets the first one's", BASEL + '''
write(M[:2])
info, wave, flux = kcorrect.utils.read_basel(path("m.ori"))
ok(near(info["mh"], [0., -0.5]), info["mh"])
''')

seed("c26-lock-kept", "C26", [("response", "        with cls._lock:\n            if cls not in cls._instances:\n                cls._instances[cls] = super(ResponseDictSingleton,\n                                            cls).__call__(*args, **kwargs)\n        return cls._instances[cls]\n",
      "        cls._lock.acquire()\n        if cls not in cls._instances:\n            cls._instances[cls] = super(ResponseDictSingleton,\n                                        cls).__call__(*args, **kwargs)\n        instance = cls._instances[cls]\n        cls._lock.release()\n        return instance\n")],
     "an interruption while the registry is being obtained", "every later use of the registry waits for ever", '''
import threading
R = kcorrect.response


class Interrupted(dict):
    """Interrupts the first look at what there is"""

    def __contains__(self, x):
        raise KeyboardInterrupt()


real = R.ResponseDictSingleton._instances
R.ResponseDictSingleton._instances = Interrupted()
try:
    R.ResponseDict()
except KeyboardInterrupt:
    pass
R.ResponseDictSingleton._instances = real
got = []
t = threading.Thread(target=lambda: got.append(R.ResponseDict()), daemon=True)
t.start()
t.join(10.)
ok(got, "the registry cannot be obtained any more")
''')

TOGGLE = ("kcorrect", "        for imc in np.arange(mc, dtype=np.int32):\n            out = self.absmag(",
          "        abcorrect, self.abcorrect = self.abcorrect, False\n        for imc in range(mc):\n            out = self.absmag(")

seed("c26-flag-left", "C26", [TOGGLE, ("kcorrect", "        return_list = [absmag_mc]\n", "        self.abcorrect = abcorrect\n\n        return_list = [absmag_mc]\n")],
     "an interruption of Monte Carlo absolute magnitudes", "the object never corrects to AB again", '''
class Cosmology:
    """Planck18, interrupted at one of its calls"""
    stop = False

    def distmod(self, z):
        if self.stop:
            raise KeyboardInterrupt()
        return kcorrect.kcorrect.astropy.cosmology.Planck18.distmod(z)


k = kcorrect.kcorrect.KcorrectSDSS(templates=templates(3), nredshift=5, cosmo=Cosmology())
z, f, w = np.array([0.1, 0.5]), 1e-9 * np.array([[1., 2., 4., 5., 7.], [1., 1., 2., 5., 9.]]), np.full((2, 5), 1e19)
c, cmc, fmc = k.fit_coeffs(redshift=z, maggies=f, ivar=w, mc=2)
k.cosmo.stop = True
try:
    k.absmag_mc(redshift=z, maggies_mc=fmc, ivar=w, coeffs_mc=cmc)
except KeyboardInterrupt:
    pass
k.cosmo.stop = False
ok(near(k.fit_coeffs(redshift=z, maggies=f, ivar=w), c, 1e-6), "fits changed")
''')

seed("c26-key-first", "C26", [("kcorrect", "            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)\n\n        k = ",
      "            if(not np.array_equal(redshift, getattr(self, '_dm_redshift', None))):\n                self._dm_redshift = np.array(redshift)\n                self._dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)\n            dm = self._dm\n\n        k = ")],
     "absolute magnitudes interrupted in the cosmology and asked for again", "distance moduli remembered for the previous redshifts are used", '''
class Cosmology:
    stop = False

    def distmod(self, z):
        if self.stop:
            raise KeyboardInterrupt()
        return kcorrect.kcorrect.astropy.cosmology.Planck18.distmod(z)


k = build(cosmo=Cosmology())
f, w, c = 1e-9 * np.array([1., 2., 4., 5.]), np.full(4, 1e19), np.array([1., 0.3, 2.])
want = [k.absmag(redshift=z, maggies=f, ivar=w, coeffs=c) for z in (0.2, 0.6)]
k.absmag(redshift=0.2, maggies=f, ivar=w, coeffs=c)
k.cosmo.stop = True
try:
    k.absmag(redshift=0.6, maggies=f, ivar=w, coeffs=c)
except KeyboardInterrupt:
    pass
k.cosmo.stop = False
ok(near(k.absmag(redshift=0.6, maggies=f, ivar=w, coeffs=c), want[1], 1e-6), "absolute magnitudes of another redshift")
''')

PAUSE = '''
import threading


class Pausing:
    """What it stands for, but the first thread's call waits for the second thread"""

    def __init__(self, real):
        self.real, self.here, self.go = real, threading.Event(), threading.Event()

    def __call__(self, *a, **kw):
        r = self.real(*a, **kw)
        if threading.current_thread().name == "first" and not self.here.is_set():
            self.here.set()
            self.go.wait(10.)
        return r


def both(pause, first, second):
    """Results of first and of second, called while first pauses"""
    got = {}
    t = threading.Thread(name="first", target=lambda: got.update(first=first()))
    t.start()
    pause.here.wait(10.)
    got["second"] = second()
    pause.go.set()
    t.join(20.)
    ok("first" in got, "the first thread failed")
    return got["first"], got["second"]


'''

seed("c27-flag-toggled", "C27", [TOGGLE, ("kcorrect", "        return_list = [absmag_mc]\n", "        self.abcorrect = abcorrect\n\n        return_list = [absmag_mc]\n"),
      ("kcorrect", "            abcorrect=False)\n", "            abcorrect=None)\n")],
     "a fit in one thread while another computes Monte Carlo absolute magnitudes", "the fit is not corrected to AB", PAUSE + '''
class Cosmology:
    pass


k = kcorrect.kcorrect.KcorrectSDSS(templates=templates(3), nredshift=5, cosmo=Cosmology())
k.cosmo.distmod = Pausing(kcorrect.kcorrect.astropy.cosmology.Planck18.distmod)
z, f, w = np.array([0.1, 0.5]), 1e-9 * np.array([[1., 2., 4., 5., 7.], [1., 1., 2., 5., 9.]]), np.full((2, 5), 1e19)
c, cmc, fmc = k.fit_coeffs(redshift=z, maggies=f, ivar=w, mc=2)
m = k.absmag_mc(redshift=z, maggies_mc=fmc, ivar=w, coeffs_mc=cmc)
a, b = both(k.cosmo.distmod, lambda: k.absmag_mc(redshift=z, maggies_mc=fmc, ivar=w, coeffs_mc=cmc),
            lambda: k.fit_coeffs(redshift=z, maggies=f, ivar=w))
ok(near(a, m, 1e-6), "Monte Carlo absolute magnitudes")
ok(near(b, c, 1e-6), "fit", b, c)
''')

seed("c27-errors-kept", "C27", [("fitter", "        inverr = np.sqrt(ivar)\n", "        self._inverr = np.sqrt(ivar)\n        inverr = self._inverr\n"),
      ("fitter", "        b = maggies * inverr\n", "        b = maggies * self._inverr\n")],
     "a fit in one thread between two steps of a fit in another", "fluxes are weighted with the other object's errors", PAUSE + '''
k = build()
f, w = 1e-9 * np.array([[1., 2., 4., 5.], [3., 2., 1., 5.]]), np.array([[1e19, 2e19, 1e19, 3e18], [1e17, 2e18, 3e18, 1e17]])
c = [k.fit_coeffs(redshift=0.3, maggies=f[i], ivar=w[i]) for i in (0, 1)]
k.Amatrix = Pausing(k.Amatrix)
a, b = both(k.Amatrix, lambda: k.fit_coeffs(redshift=0.3, maggies=f[0], ivar=w[0]), lambda: k.fit_coeffs(redshift=0.3, maggies=f[1], ivar=w[1]))
ok(near(a, c[0], 1e-5, 1e-5 * c[0].max()) and near(b, c[1], 1e-5, 1e-5 * c[1].max()), "fits", a, b, c)
''')

seed("c27-work-array", "C27", [("kcorrect", "        maggies_in = self.reconstruct(redshift=redshift, coeffs=coeffs)\n",
      "        if(getattr(self, '_maggies_in', np.zeros(0)).shape != coeffs.shape[:-1] + (len(self.responses),)):\n            self._maggies_in = np.zeros(coeffs.shape[:-1] + (len(self.responses),), dtype=np.float32)\n        maggies_in = self._maggies_in\n        maggies_in[...] = self.reconstruct(redshift=redshift, coeffs=coeffs)\n")],
     "K-corrections in two threads for the same number of objects", "one thread gets the other's observed fluxes", PAUSE + '''
k = build(responses_out=bands()[:3], responses_map=bands()[:3])
z, c = np.array([0.2, 0.5]), np.array([[1., 0.3, 2.], [0., 1., 0.1]])
want = k.kcorrect(redshift=z, coeffs=c), k.kcorrect(redshift=0.5 * z, coeffs=c[::-1])
k.AmatrixOut = Pausing(k.AmatrixOut)
a, b = both(k.AmatrixOut, lambda: k.kcorrect(redshift=z, coeffs=c), lambda: k.kcorrect(redshift=0.5 * z, coeffs=c[::-1]))
ok(near(a, want[0], 1e-5, 1e-5) and near(b, want[1], 1e-5, 1e-5), "K-corrections", a, b, want)
''')

seed("c28-redshift-dropped", "C28", [("template", '        """Set up after restframe_wave and restframe_flux are read in"""\n',
      '        """Set up after restframe_wave and restframe_flux are read in or unpickled"""\n'),
      ("template", "    def sed_dtype(self):\n", '''    def __getstate__(self):
        """What can be calculated again is not pickled"""
        state = dict(self.__dict__)
        for key in ['wave', 'flux', 'interp']:
            state.pop(key)
        return(state)

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.interp = None
        self._setup()
        return

    def sed_dtype(self):
''')],
     "a spectrum copied or pickled while it is redshifted", "the copy is back at redshift 0", '''
import copy
import pickle

for redshift in (0., 0.4):
    s = kcorrect.template.SED(wave=np.linspace(2000., 9000., 90), flux=np.linspace(1., 2., 90))
    s.set_redshift(redshift)
    for x in (copy.deepcopy(s), pickle.loads(pickle.dumps(s))):
        ok(near(x.wave, s.wave, 1e-6) and near(x.flux, s.flux, 1e-6) and x.redshift == redshift, "copy is at", x.redshift, "with", x.wave[0])
        ok(near(x.interp(4000.), s.interp(4000.), 1e-6), "interpolated")
''')

seed("c28-cosmology-lost", "C28", [("kcorrect", """        if(cosmo is not None):
            self.cosmo = cosmo
        else:
            self.cosmo = astropy.cosmology.Planck18

        return

""", """        self._set_cosmo(cosmo)
        return

    def __getstate__(self):
        \"\"\"Cosmologies are not pickled, which is slow\"\"\"
        state = dict(self.__dict__)
        state.pop('cosmo')
        return(state)

    def __setstate__(self, state):
        self.__dict__.update(state)
        self._set_cosmo()
        return

    def _set_cosmo(self, cosmo=None):
        \"\"\"Set cosmology\"\"\"
        if(cosmo is not None):
            self.cosmo = cosmo
        else:
            self.cosmo = astropy.cosmology.Planck18
        return

""")],
     "an object with another cosmology than the default, copied or pickled", "the copy uses the default cosmology", '''
import copy
import pickle
import astropy.cosmology

for cosmo in (None, astropy.cosmology.FlatLambdaCDM(H0=50., Om0=0.9)):
    k = build(cosmo=cosmo)
    f = 1e-9 * np.array([1., 2., 4., 5.])
    c = k.fit_coeffs(redshift=0.3, maggies=f, ivar=1e20 + 0. * f)
    m = k.absmag(redshift=0.3, maggies=f, ivar=1e20 + 0. * f, coeffs=c)
    for x in (copy.deepcopy(k), pickle.loads(pickle.dumps(k))):
        ok(near(x.absmag(redshift=0.3, maggies=f, ivar=1e20 + 0. * f, coeffs=c), m, 1e-6), "absolute magnitudes of a copy")
''')

seed("c28-shared-copy", "C28", [("template", '        """Returns numpy dtype for SED"""\n        sed_dtype', '        """Numpy dtype for SED"""\n        sed_dtype'),
      ("template", "    def sed_dtype(self):\n", '''    def __deepcopy__(self, memo):
        """Copy; spectra can be large and are not duplicated"""
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        memo[id(self)] = new
        return(new)

    def sed_dtype(self):
''')],
     "a copy made with copy.deepcopy() whose spectra are changed in place", "the original changes along", '''
import copy

t = templates(3)
f, m = np.array(t.restframe_flux), np.array(t.mremain)
x = copy.deepcopy(t)
ok(type(x) is type(t) and near(x.restframe_flux, f, 1e-6), "copy")
x.set_redshift(0.5)
x.restframe_flux *= 2.
x.mremain[...] = 0.
ok(near(t.restframe_flux, f, 1e-6) and near(t.mremain, m, 1e-6), "the original changed with its copy")
''')

LINES = '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt


def lines(s, **kw):
    plt.close("all")
    s.plot(**kw)
    return sorted([(np.array(x.get_xdata()), np.array(x.get_ydata())) for x in plt.gca().get_lines()], key=lambda x: x[1].sum())


def expect(s, indx):
    m = [s.flux[i] > 0. for i in indx]
    return sorted([(np.log10(s.wave[k]), np.log10(s.wave[k] * s.flux[i][k])) for i, k in zip(indx, m)], key=lambda x: x[1].sum())


def compare(s, chosen, **kw):
    a, b = lines(s, **kw), expect(s, chosen)
    ok(len(a) == len(b), "number of lines", len(a), len(b))
    for x, y in zip(a, b):
        ok(len(x[0]) == len(y[0]) and near(x[0], y[0], 1e-5, 1e-5) and near(x[1], y[1], 1e-5, 1e-5), "line", x, y)


'''

seed("c29-common-mask", "C29", [("template", "        for i in indxs:\n            ok = self.flux[i, :] > 0.\n", "        ok = self.flux[indxs, :].min(axis=0) > 0.\n        for i in indxs:\n")],
     "several spectra of which one vanishes or is negative somewhere", "the others are not drawn there", LINES + '''
w = np.linspace(2000., 9000., 12)
f = np.array([1. + w / 1000., 5. + 0. * w, 2. + np.cos(w)])
f[1, ::3] = 0.
s = kcorrect.template.SED(wave=w, flux=f)
compare(s, [0], indx=0)
compare(s, [0, 2], indx=[0, 2])
compare(s, [0, 1, 2])
''')

seed("c29-each-once", "C29", [("template", "        indxs = np.int32(indx)\n", "        indxs = np.unique(np.int32(np.abs(indx)))\n"),
      ("template", "        if(indxs.ndim == 0):\n            indxs = np.array([indxs], dtype=np.int32)\n", "")],
     "spectra counted from the last one", "another spectrum is drawn", LINES + '''
w = np.linspace(2000., 9000., 12)
s = kcorrect.template.SED(wave=w, flux=np.array([1. + w / 1000., 5. + 0. * w, 2. + np.cos(w)]))
compare(s, [1], indx=1)
compare(s, [2, 0], indx=[2, 0])
compare(s, [2], indx=-1)
''')

RUN = '''
import os
import shutil
import subprocess
import sys
import tempfile

CODE = """
import numpy as np
import kcorrect.kcorrect, kcorrect.response, kcorrect.template
%s
"""


def run(code, cwd, **env):
    e = dict({k: v for k, v in os.environ.items() if k != "KCORRECT_DIR"}, MPLBACKEND="Agg", PYTHONPATH=SRC, **env)
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", CODE % code], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.stdout.strip() or p.stderr[-300:]


SRC = os.path.dirname(os.path.dirname(os.path.abspath(kcorrect.__file__)))
scratch = tempfile.mkdtemp()
import atexit
atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))
os.mkdir(scratch + "/empty")
os.makedirs(scratch + "/data/responses")
for d in ("/", "/data/responses/"):
    with open(scratch + d + "sdss_r0.dat", "w") as fp:
        fp.write("|lambda|pass|\\n|4000|0|\\n|4100|.5|\\n|4200|1|\\n|4300|.5|\\n|4400|0|\\n")
LAMBDA = """
f = kcorrect.response.ResponseDict()
f.load_response("sdss_r0")
print("%.1f" % f["sdss_r0"].lambda_eff)
"""
'''

seed("c30-variable-obeyed", "C30", [("__init__", "KCORRECT_DIR = os.path.dirname(__file__)\n", "KCORRECT_DIR = os.environ.get('KCORRECT_DIR', os.path.dirname(__file__))\n"),
      ("response", "            sunfile = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'basel',", "            sunfile = os.path.join(os.path.dirname(kcorrect.__file__), 'data', 'basel',"),
      ("response", "            vegafile = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'basel',", "            vegafile = os.path.join(os.path.dirname(kcorrect.__file__), 'data', 'basel',")],
     "the environment variable of earlier versions still being set", "bandpasses come from another installation", RUN + '''
a = run(LAMBDA, scratch + "/empty")
ok(6000. < float(a) < 6400., a)
b = run(LAMBDA, scratch + "/empty", KCORRECT_DIR=scratch)
ok(a == b, a, b)
''')

seed("c30-directory-first", "C30", [("response", "        if(os.path.isabs(filename)):\n", "        if(os.path.isabs(filename) or os.path.isfile(filename)):\n")],
     "a working directory that holds a file named like a shipped response", "that file is taken for the shipped response", RUN + '''
a = run(LAMBDA, scratch + "/empty")
ok(6000. < float(a) < 6400., a)
b = run(LAMBDA, scratch)
ok(a == b, a, b)
''')

seed("c30-read-later", "C30", [("template", "        self.m300 = hdul['M300'].data\n", ""),
      ("template", "            self.m50 = self.m300 * 0.\n", "            self.m50 = self.intsfh * 0.\n"),
      ("template", "    def tofits(self, filename=None, clobber=True):\n", '''    @property
    def m300(self):
        """Mass formed within 300 Myr, read when first used"""
        if('m300' not in self.info):
            with fits.open(self.filename) as hdul:
                self.info['m300'] = np.array(hdul['M300'].data)
        return(self.info['m300'])

    @m300.setter
    def m300(self, m300):
        self.info['m300'] = m300

    def tofits(self, filename=None, clobber=True):
''')],
     "a template file named relative to the working directory, which changes before the templates are first used", "the mass formed within 300 Myr cannot be read any more", RUN + '''
OWN = """
import os
shipped = os.path.join(os.path.dirname(kcorrect.__file__), "data", "templates", "kcorrect-default-v4.fits")
kcorrect.template.Template(filename=shipped).tofits("own.fits")
t = kcorrect.template.Template(filename="own.fits")
os.chdir("%s")
print(np.array_equal(t.m300, kcorrect.template.Template(filename=shipped).m300))
"""
a = run(OWN % ".", scratch + "/empty")
ok(a == "True", a)
b = run(OWN % "..", scratch + "/empty")
ok(b == "True", b)
''')

seed("c31-zero-for-missing", "C31", [("fitter", "        b = maggies * inverr\n", "        b = np.nan_to_num(maggies * inverr)\n")],
     "a flux that is NaN in a band with weight", "a missing flux is fitted as a measured flux of zero", '''
k = build()
f = np.float64(k.Amatrix(0.3).dot([1., 2., 0.5]))
w = 100. / f**2
f[2] = np.nan
try:
    c = k.fit_coeffs(redshift=0.3, maggies=f, ivar=w)
except ValueError:
    c = np.zeros(3)
ok(not np.any(np.isfinite(c) & (c != 0.)), "a missing flux was fitted", c)
''')

seed("c31-no-correction", "C31", [("kcorrect", "        k = self.kcorrect(redshift=redshift, coeffs=coeffs,\n                          band_shift=band_shift)\n",
      "        k = np.nan_to_num(self.kcorrect(redshift=redshift, coeffs=coeffs,\n                                        band_shift=band_shift))\n")],
     "an object with a distance but no redshift", "its absolute magnitude lacks the K-correction", '''
k = build()
c = np.ones((2, 3))
f = k.reconstruct(redshift=[0.3, 0.5], coeffs=c)
try:
    a = k.absmag(redshift=[0.3, np.nan], maggies=f, ivar=1e4 / f**2, coeffs=c, distance=[1000., 2000.])
except ValueError:
    a = None
if a is not None:
    one = k.absmag(redshift=0.3, maggies=f[0], ivar=1e4 / f[0]**2, coeffs=c[0], distance=1000.)
    ok(near(a[0], one, 1e-5), "the other object changed", a, one)
    ok(not np.any(np.isfinite(a[1]) & (a[1] != -9999.)), "an object without redshift has absolute magnitudes", a[1])
''')

seed("c31-no-extinction", "C31", [("utils", "        maggies[..., k] = (maggies[..., k] * 10.**(0.4 * extinction[..., k]))\n",
      "        maggies[..., k] = (maggies[..., k] *\n                           10.**(0.4 * np.nan_to_num(extinction[..., k])))\n")],
     "a catalogue with an unknown extinction", "it is taken for no extinction", '''
U = kcorrect.utils
m, x = np.array([[18., 17., 16., 15.5, 15.2]] * 2), np.full((2, 5), 0.3)
x[1, 2] = np.nan
f = U.sdss_asinh_to_maggies(mag=m, extinction=x)
ok(not np.isfinite(f[1, 2]), "flux without known extinction", f[1, 2])
ok(near(f[0], U.sdss_asinh_to_maggies(mag=m[0], extinction=x[0]), 1e-5), "the other object changed")
''')

seed("c32-option-order", "C32", [("kcorrect", "coeffs_mc=None, band_shift=0., distance=None, reconstruct=False,\n                  kcorrect=False):", "coeffs_mc=None, distance=None, band_shift=0., reconstruct=False,\n                  kcorrect=False):")],
     "absmag_mc() called with its options by position", "the band shift is taken for the distance", '''
k = build()
c = np.ones((2, 3, 2))
f = k.reconstruct(redshift=[0.3, 0.5], coeffs=c[:, :, 0])
w = 1e4 / f**2
f = np.stack([f, f * 1.1], axis=-1)
a = k.absmag_mc(f, w, [0.3, 0.5], c, 0.1)
b = k.absmag_mc(maggies_mc=f, ivar=w, redshift=[0.3, 0.5], coeffs_mc=c, band_shift=0.1)
ok(near(a, b, 1e-5), "by position", a, "by name", b)
''')

seed("c32-ignores-unknown", "C32", [("kcorrect", "    def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):",
      "    def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None,\n                **unused):")],
     "derived() called with a misspelled option", "the option is ignored and the default used", '''
k = build()
try:
    k.derived(redshift=0.3, coeffs=np.ones(3), bandshift=0.1)
except TypeError:
    pass
else:
    ok(False, "an unknown option was ignored")
''')

seed("c32-own-range", "C32", [("kcorrect", "                  redshift_range=[0., 2.], nredshift=4000,\n                 abcorrect=False, cosmo=None):\n\n        # Initatialize using Kcorrect"[1:],
      "                 redshift_range=[0., 1.], nredshift=4000,\n                 abcorrect=False, cosmo=None):\n\n        # Initatialize using Kcorrect")],
     "a GALEX-SDSS-2MASS object made without a redshift range", "its range is [0, 1], not the documented [0, 2]", '''
import inspect
t = kcorrect.template.Template(filename=os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits"))
k = kcorrect.kcorrect.KcorrectGST(templates=t, nredshift=3)
ok(near(k.redshift_range, [0., 2.], 1e-6), "default range", k.redshift_range)
''')

seed("c33-own-cache", "C33", [("fitter", "        f = kcorrect.response.ResponseDict()\n        for response in responses:\n            f.load_response(response)\n\n        # Create rmatrix",
      "        f = _responses\n        for response in responses:\n            if(response not in f):\n                kcorrect.response.ResponseDict().load_response(response)\n                f[response] = kcorrect.response.ResponseDict()[response]\n\n        # Create rmatrix"),
     ("fitter", "class Fitter(object):", "_responses = dict()\n\n\nclass Fitter(object):")],
     "an object built with a bandpass whose registry entry was replaced after an earlier object used it", "the earlier bandpass is used", '''
import kcorrect.response
f = kcorrect.response.ResponseDict()


def put(centre):
    w = np.linspace(centre - 500., centre + 500., 21)
    f["mine"] = kcorrect.response.Response(wave=w, response=1. - ((w - centre) / 500.)**2)


b = band("b", 6000., 500.)
out = []
for centre in (5000., 8000.):
    put(centre)
    k = kcorrect.kcorrect.Kcorrect(responses=["mine", b], templates=templates(2), redshift_range=[0., 0.5], nredshift=3)
    m = f["mine"].project(sed=templates(2))
    ok(near(k.reconstruct(redshift=0., coeffs=[1., 0.])[0], m[0], 1e-4), "flux of template 0 in the band at", centre, "should be", m[0])
''')

seed("c33-reload-rereads", "C33", [("kcorrect", "        for response in self.responses + self.responses_out:\n            f.load_response(response)\n",
      "        for response in self.responses + self.responses_out:\n            f.load_response(response, reload=os.path.exists(os.path.join(kcorrect.KCORRECT_DIR, 'data', 'responses',\n                                                                         response + '.dat')))\n")],
     "an object saved and read while its bandpass in the registry is the user's own, with a file of the same name", "reading the object replaces the user's bandpass by that of the file", '''
import kcorrect.response
f = kcorrect.response.ResponseDict()
w = np.linspace(3500., 4500., 21)
x = kcorrect.response.Response(wave=w, response=1. - ((w - 4000.) / 500.)**2)
f["sdss_z0"] = x
k = kcorrect.kcorrect.Kcorrect(responses=["sdss_z0"], templates=templates(2), redshift_range=[0., 0.5], nredshift=3)
a = k.derived(redshift=0.3, coeffs=[1., 2.])["mtol"]
k.tofits(path("k.fits"))
k2 = kcorrect.kcorrect.Kcorrect(filename=path("k.fits"))
ok(f["sdss_z0"] is x, "the user's bandpass was replaced")
ok(near(k2.derived(redshift=0.3, coeffs=[1., 2.])["mtol"], a, 1e-4), "mtol changed")
''')

seed("c33-bare-names", "C33", [("utils", "        if(response not in r):\n            r.load_response(response)\n",
      "        if(response not in r or r[response].filename is not None):\n            r.load_response(response, reload=(response in r and r[response].filename != response))\n")],
     "flux conversion with a bandpass that the user read from a .dat file himself and put into the registry under a name of its own", "the conversion looks for a file of that name", '''
import kcorrect.response
f = kcorrect.response.ResponseDict()
b = band("b", 6000., 500.)
f["mine"] = kcorrect.response.Response(filename=b + ".dat")
f["sdss_g0"] = kcorrect.response.Response(filename=b + ".dat")
for n in ("sdss_g0", "mine"):
    wave, fl = kcorrect.utils.maggies2flambda(maggies=np.array([1e-9]), responses=[n])
    ok(near(wave, [f["mine"].lambda_eff], 1e-5) and abs(wave[0] - 6000.) < 50., n, wave)
''')

seed("c20-distance-unchecked", "C20", [("kcorrect", "        if(distance is not None):\n            (array, n, distance, d1, d2,\n             d3) = self._process_inputs(redshift=distance, coeffs=coeffs)\n            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc\n            dm = 2.5 * np.log10(dfactor)\n        else:\n            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)\n\n        k = self",
      "        if(distance is not None):\n            distance = np.float32(distance)\n            dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc\n            dm = 2.5 * np.log10(dfactor)\n        else:\n            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)\n\n        k = self")],
     "absolute magnitudes of a catalogue with a list of distances that is too long", "the surplus distances are ignored instead of being rejected", '''
k = build()
c = np.ones((2, 3))
f = k.reconstruct(redshift=[0.3, 0.5], coeffs=c)
try:
    k.absmag(redshift=[0.3, 0.5], maggies=f, ivar=1e4 / f**2, coeffs=c, distance=[100., 200., 300.])
except (ValueError, TypeError):
    pass
else:
    ok(False, "three distances for two objects were accepted")
''')

seed("c17-offsets-overwritten", "C17", [("utils", "    abfix = np.array(abfix, dtype=np.float32)\n    if(abfix.shape != (5,)):\n        raise ValueError(\"abfix must have 5 values\")\n    abfac = 10.**(- 0.4 * abfix)\n",
      "    abfix = np.asarray(abfix, dtype=np.float32)\n    if(abfix.shape != (5,)):\n        raise ValueError(\"abfix must have 5 values\")\n    abfix *= - 0.4\n    abfac = 10.**abfix\n")],
     "AB offsets given as a single-precision array, used twice", "the caller's offsets are overwritten", '''
U = kcorrect.utils
x = np.float32([0.1, 0.2, -0.1, 0., 0.3])
m = np.full(5, 1e-9)
a = U.sdss_ab_correct(maggies=m, abfix=x)
b = U.sdss_ab_correct(maggies=m, abfix=x)
ok(near(x, np.float32([0.1, 0.2, -0.1, 0., 0.3])), "offsets are now", x)
ok(near(a, b), a, b)
''')

seed("c17-no-fit-shared", "C17", [("fitter", "        default_zeros = np.zeros(self.templates.nsed, dtype=np.float32)\n\n        inverr",
      "        default_zeros = _zeros.setdefault(self.templates.nsed, np.zeros(self.templates.nsed, dtype=np.float32))\n\n        inverr"),
     ("fitter", "class Fitter(object):", "_zeros = dict()\n\n\nclass Fitter(object):")],
     "the coefficients of a single object beyond the redshift range, changed by the caller before another such object is fitted", "all objects without a fit share one array of coefficients", '''
k = build()
a = dict(maggies=[1e-9] * 4, ivar=[1e18] * 4)
c = k.fit_coeffs(redshift=3., **a)
c += 1.
ok(near(k.fit_coeffs(redshift=4., **a), np.zeros(3)), "coefficients of an object that can't be fitted", k.fit_coeffs(redshift=4., **a))
''')
