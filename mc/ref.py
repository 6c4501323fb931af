"""Reference model of kcorrect, written from its documentation, in float64.

Nothing here imports kcorrect: curves, spectra and stellar models are parsed
again from the data files, and every formula is written out plainly.
"""
import itertools
import os

import numpy as np
from scipy.interpolate import CubicSpline

REPO = "/repo"
DATA = os.path.join(REPO, "src", "kcorrect", "data")
DEFAULT_TEMPLATES = os.path.join(DATA, "templates", "kcorrect-default-v4.fits")
LRG_TEMPLATES = os.path.join(DATA, "templates", "kcorrect-lrg1-v4.fits")
SUN = os.path.join(DATA, "basel", "lcbsun.ori")
VEGA = os.path.join(DATA, "basel", "lcbvega.ori")

CSPEED_18 = 2.99792              # 10^18 A/s, the package's AB convention


def ab_flambda(wave):
    """3631 Jy in erg/s/cm^2/A"""
    wave = np.asarray(wave, dtype=np.float64)
    return 3.631e-20 * CSPEED_18 * 1.e18 / wave**2


class ParseError(Exception):
    pass


def parse_dat(path):
    """(wave, pass) of a fixed_width response file, sorted by wavelength"""
    header = None
    rows = []
    with open(path) as fp:
        for line in fp:
            if line.lstrip().startswith("#") or not line.strip():
                continue
            if "|" not in line:
                raise ParseError("no columns in " + path)
            words = [w.strip() for w in line.strip().strip("|").split("|")]
            if header is None:
                header = words
                continue
            rows.append(words)
    if header is None or "lambda" not in header or "pass" not in header:
        raise ParseError("no lambda and pass columns in " + path)
    il, ip = header.index("lambda"), header.index("pass")
    try:
        w = np.array([float(r[il]) for r in rows])
        p = np.array([float(r[ip]) for r in rows])
    except (ValueError, IndexError):
        raise ParseError("not numbers in " + path)
    order = np.argsort(w)
    return w[order], p[order]


def spline0(x, y):
    """Cubic (not-a-knot) interpolator over x along the last axis of y, zero outside"""
    x = np.asarray(x, dtype=np.float64)
    y = np.asarray(y, dtype=np.float64)
    cs = CubicSpline(x, y, axis=-1, bc_type="not-a-knot")

    def f(q):
        q = np.asarray(q, dtype=np.float64)
        v = cs(q)
        out = (q < x[0]) | (q > x[-1])
        v[..., out] = 0.
        return v
    return f


class Band:
    def __init__(self, wave, resp, name=None):
        order = np.argsort(np.asarray(wave), kind="stable")
        self.wave = np.asarray(wave, dtype=np.float64)[order]
        self.resp = np.asarray(resp, dtype=np.float64)[order]
        self.name = name
        self.f = spline0(self.wave, self.resp)

    def project(self, wave, flux):
        """AB maggies of spectra flux[..., nwave] given at wave"""
        wave = np.asarray(wave, dtype=np.float64)
        flux = np.atleast_2d(np.asarray(flux, dtype=np.float64))
        lo, hi = self.wave[0], self.wave[-1]
        if wave[-1] < lo or wave[0] > hi:
            return np.zeros(flux.shape[0])
        inside = np.nonzero((wave >= lo) & (wave <= hi))[0]
        use = list(inside)
        grid = np.unique(np.concatenate([wave[use], self.wave]))
        r = self.f(grid)
        s = spline0(wave, flux)(grid)
        den = np.trapezoid(ab_flambda(grid) * r * grid, grid)
        return np.array([np.trapezoid(s[i] * r * grid, grid) / den for i in range(len(flux))])

    def lambda_eff(self):
        w, r = self.wave, self.resp
        return np.exp(np.trapezoid(np.log(w) * r / w, w) / np.trapezoid(r / w, w))


_bands = {}


def band(name):
    """Band of a response name (shipped, or an absolute path without .dat)"""
    path = name if os.path.isabs(name) else os.path.join(DATA, "responses", name)
    if path not in _bands:
        w, r = parse_dat(path + ".dat")
        _bands[path] = Band(w, r, name)
    return _bands[path]


def parse_basel(path, nwave=1221):
    """(wave_nm, [(params(6), flux(nwave))])"""
    with open(path) as fp:
        words = fp.read().split()
    vals = [float(x) for x in words]
    wave = np.array(vals[:nwave])
    models = []
    pos = nwave
    while pos + 6 + nwave <= len(vals):
        models.append((vals[pos:pos + 6], np.array(vals[pos + 6:pos + 6 + nwave])))
        pos += 6 + nwave
    return wave, models


_stars = {}


def star(which):
    """(wave_A, flambda) of the Sun at 10 pc or Vega at its distance"""
    if which not in _stars:
        wave, models = parse_basel(SUN if which == "sun" else VEGA)
        assert len(models) == 1
        wave = wave * 10.
        h = models[0][1]
        pc = 3.086e18
        fac = (6.960e10 / (10. * pc))**2 if which == "sun" else (1.91144e11 / (7.68 * pc))**2
        _stars[which] = (wave, np.pi * 4. * h * CSPEED_18 * 1e18 / wave**2 * fac)
    return _stars[which]


def star_magnitude(b, which):
    """AB magnitude of the Sun (at 10 pc) or Vega, or None"""
    w, f = star(which)
    m = b.project(w, f)[0]
    return -2.5 * np.log10(m) if m > 0 else None


class Templates:
    """Template set read with astropy.io.fits"""

    def __init__(self, path):
        from astropy.io import fits
        self.path = path
        with fits.open(path) as h:
            names = [x.name for x in h]
            if "WAVE" in names:
                self.wave = np.array(h["WAVE"].data, dtype=np.float64)
                self.flux = np.array(h["FLUX"].data, dtype=np.float64)
            else:
                d = h["FLUX"].data
                self.wave = np.array(d["wave"][0], dtype=np.float64)
                self.flux = np.array(d["flux"][0], dtype=np.float64)
            self.flux = np.atleast_2d(self.flux)
            self.n = self.flux.shape[0]
            g = {k: np.atleast_1d(np.array(h[k.upper()].data, dtype=np.float64)) if k.upper() in names else None
                 for k in ("intsfh", "mremain", "mets", "m50", "m300", "m1000")}
        self.__dict__.update(g)
        if self.m50 is None:
            self.m50 = np.zeros(self.n)


class Model:
    """What a Kcorrect object is documented to compute"""

    def __init__(self, templates, responses, responses_out=None, responses_map=None,
                 lo=0., hi=2., n=4000, cosmo=None):
        self.t = templates
        self.responses = list(responses)
        self.out = list(responses if responses_out is None else responses_out)
        rmap = list(responses if responses_map is None else responses_map)
        self.imap = [self.responses.index(r) for r in rmap]
        self.lo, self.hi, self.n = float(np.float32(lo)), float(np.float32(hi)), n
        self.grid = self.lo + (self.hi - self.lo) * np.arange(n) / (n - 1.)
        self._cache = {}
        self._cosmo = cosmo

    # -- model fluxes -----------------------------------------------------
    def _at(self, i, bands):
        key = (i, tuple(bands))
        if key not in self._cache:
            z = self.grid[i]
            rows = []
            for b in bands:
                kb = (i, b)
                if kb not in self._cache:
                    self._cache[kb] = band(b).project(self.t.wave * (1. + z), self.t.flux / (1. + z))
                rows.append(self._cache[kb])
            self._cache[key] = np.array(rows)
        return self._cache[key]

    def A(self, z, which="in"):
        """[nband, ntemplate] fluxes of the templates at redshift z, or None out of range"""
        bands = self.responses if which == "in" else self.out
        if not (self.lo <= z <= self.hi):
            return None
        x = (z - self.lo) / (self.hi - self.lo) * (self.n - 1)
        i = int(min(max(np.floor(x + 1e-9), 0), self.n - 2))
        w = min(max(x - i, 0.), 1.)
        a = 0.
        if w < 1.:
            a = a + (1. - w) * self._at(i, bands)
        if w > 0.:
            a = a + w * self._at(i + 1, bands)
        return a

    def reconstruct(self, z, coeffs, band_shift=0., which="in"):
        z = float(np.float32(z))
        a = self.A(z + band_shift * (1. + z), which)
        if a is None:
            return None
        return a.dot(np.asarray(coeffs, dtype=np.float64)) / (1. + band_shift)

    # -- magnitudes -------------------------------------------------------
    def dm(self, z, distance=None):
        if distance is not None:
            return 5. * np.log10(float(distance) * 1e6 / 10.)
        cosmo = self._cosmo
        if cosmo is None:
            from astropy.cosmology import Planck18 as cosmo
        dl = cosmo.luminosity_distance(float(np.float32(z))).to_value("Mpc")
        return 5. * np.log10(dl * 1e6 / 10.) if dl > 0 else -np.inf

    def kcorrect(self, z, coeffs, band_shift=0.):
        coeffs = np.asarray(coeffs, dtype=np.float64)
        if not np.any(coeffs > 0):
            return np.zeros(len(self.out))
        fin = self.reconstruct(z, coeffs)
        fout = self.reconstruct(0., coeffs, band_shift, "out")
        return np.array([-2.5 * np.log10(fin[self.imap[k]] / fout[k]) for k in range(len(self.out))])

    def absmag(self, z, maggies, ivar, coeffs, band_shift=0., distance=None):
        """dict absmag, reconstruct, limit, kcorrect"""
        coeffs = np.asarray(coeffs, dtype=np.float64)
        k = self.kcorrect(z, coeffs, band_shift)
        dm = self.dm(z, distance)
        nout = len(self.out)
        am = np.full(nout, -9999.)
        rec = np.full(nout, -9999.)
        lim = np.full(nout, -9999.)
        fout = self.reconstruct(0., coeffs, band_shift, "out")
        for j in range(nout):
            m, iv = float(maggies[self.imap[j]]), float(ivar[self.imap[j]])
            if m > 0 and iv > 0:
                am[j] = -2.5 * np.log10(m) - dm - k[j]
            if fout[j] > 0:
                rec[j] = -2.5 * np.log10(fout[j]) - dm
            if iv > 0 and np.any(coeffs > 0):
                lim[j] = -2.5 * np.log10(1. / np.sqrt(iv)) - dm - k[j]
        return dict(absmag=am, reconstruct=rec, limit=lim, kcorrect=k)

    def derived(self, z, coeffs, band_shift=0., distance=None):
        c = np.asarray(coeffs, dtype=np.float64)
        t = self.t
        d = 10.**(0.4 * self.dm(z, distance))
        nout = len(self.out)
        if not np.any(c > 0):
            return dict(mremain=0., intsfh=0., metallicity=0., b50=0., b300=0., b1000=0.,
                        mtol=np.zeros(nout))
        mrem, isf = c.dot(t.mremain), c.dot(t.intsfh)
        fout = self.reconstruct(0., c, band_shift, "out")
        mtol = np.zeros(nout)
        for j, r in enumerate(self.out):
            sm = star_magnitude(band(r), "sun")
            lum = fout[j] if sm is None else fout[j] * 10.**(0.4 * sm)
            mtol[j] = mrem / lum if lum > 0 else 0.
        return dict(mremain=mrem * d, intsfh=isf * d, metallicity=c.dot(t.mremain * t.mets) / mrem,
                    b50=c.dot(t.m50) / isf, b300=c.dot(t.m300) / isf, b1000=c.dot(t.m1000) / isf,
                    mtol=mtol)


# -- nonnegative least squares -------------------------------------------

def kkt_gap(A, b, x):
    """How far x >= 0 is from minimising |A x - b|^2: (largest violation of the
    optimality conditions relative to |A_j| |b|, largest negativity).  Zero for the optimum; the
    problem is convex, so the conditions are necessary and sufficient."""
    A = np.asarray(A, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    x = np.asarray(x, dtype=np.float64)
    nb = np.linalg.norm(b)
    worst = 0.
    w = A.T.dot(b - A.dot(x))
    for j in range(A.shape[1]):
        na = np.linalg.norm(A[:, j])
        if na == 0 or nb == 0:
            if nb == 0 and na > 0 and x[j] * na > 0:
                worst = max(worst, x[j] * na)
            continue
        g = w[j] / (na * nb)
        worst = max(worst, g)                         # rising x_j must not help
        # lowering x_j must not help: only as far as x_j contributes at all
        worst = max(worst, min(-g, x[j] * na / nb) if g < 0 else 0.)
    return worst, max(0., -x.min()) if len(x) else 0.


def nnls_brute(A, b):
    """Optimal |A x - b|^2 over x >= 0 by trying every support set"""
    A = np.asarray(A, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    best, bx = b.dot(b), np.zeros(A.shape[1])
    for k in range(1, A.shape[1] + 1):
        for s in itertools.combinations(range(A.shape[1]), k):
            x, *_ = np.linalg.lstsq(A[:, s], b, rcond=None)
            if np.all(x >= 0):
                r = A[:, s].dot(x) - b
                if r.dot(r) < best - 1e-14 * b.dot(b):
                    best = r.dot(r)
                    bx = np.zeros(A.shape[1])
                    bx[list(s)] = x
    return best, bx


# -- photometric conversions ----------------------------------------------
SOFT = (1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10)
ABFIX = (-0.036, 0.012, 0.010, 0.028, 0.040)


def asinh_to_maggies(mag, band_index, ext=0.):
    b = SOFT[band_index]
    return 2. * b * np.sinh(-0.4 * np.log(10.) * mag - np.log(b)) * 10.**(0.4 * ext)


def asinh_ivar(mag, err, band_index, ext=0.):
    b = SOFT[band_index]
    e = 2. * b * np.cosh(-0.4 * np.log(10.) * mag - np.log(b)) * 0.4 * np.log(10.) * err
    return 10.**(-0.8 * ext) / e**2


def ab_factor(k, abfix=ABFIX):
    return 10.**(-0.4 * abfix[k])


def floor_ivar(floor, m, iv):
    if not iv > 0 or m == 0:
        return iv
    return min(iv, 1. / (floor * abs(m))**2)
