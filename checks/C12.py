"""C12 bandpass summary quantities describe the stored response curve"""
import itertools
import os

import numpy as np
from astropy.io import fits

from checks.C11 import ref_names
from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
Response = kcorrect.response.Response
check = Check("C12", assumptions=[
    "A half-maximum point is any point of the cell next to the first (last) sample above half of the largest sample where the cubic "
    "through the samples equals half of it; samples at exactly half are not generated.",
    "Expected values in float64 from the parsed data files; wavelengths to 1e-6, magnitudes to 1e-4 (2e-4 for shipped responses)."],
    rule="Executions are all combinations of the alphabets of each harness.")


def judge(R, w, r, what, mtol=1e-4):
    """R describes the curve (w, r), given in any order"""
    b = ref.Band(w, r)
    need(len(R.wave) == len(b.wave) and kc.close(R.wave, b.wave, 1e-7) and np.all(np.diff(np.asarray(R.wave, float)) > 0),
         what, "wave", R.wave, "should be", b.wave)
    need(kc.close(R.response, b.resp, 1e-6), what, "response", R.response, "should be", b.resp)
    need(R.nwave == len(b.wave), what, "nwave", R.nwave)
    need(kc.close(R.lambda_eff, b.lambda_eff(), 2e-6), what, "lambda_eff", R.lambda_eff, "should be", b.lambda_eff())
    # interpolator
    mid = 0.5 * (b.wave[1:] + b.wave[:-1])
    need(np.all(np.abs(np.asarray(R.interp(mid), float) - b.f(mid)) <= 1e-5 * np.abs(b.resp).max()), what, "interpolator")
    need(np.all(np.asarray(R.interp(np.array([b.wave[0] - 1., b.wave[-1] + 1.]))) == 0), what, "not zero outside")
    # half maximum
    h = b.resp / b.resp.max()
    for x in h:
        if abs(x - 0.5) < 1e-5:
            break
    else:
        above = np.nonzero(h > 0.5)[0]
        for side, got, i, nb in (("low", R.fwhm_low, above[0], -1), ("high", R.fwhm_high, above[-1], 1)):
            got = float(got)
            if i + nb < 0 or i + nb >= len(h):
                need(kc.close(got, b.wave[i], 1e-6), what, "fwhm", side, got, "should be the end of the grid", b.wave[i])
                continue
            a, c = sorted((b.wave[i], b.wave[i + nb]))
            need(a - 1e-6 * a <= got <= c + 1e-6 * c, what, "fwhm", side, got, "should be within", (a, c))
            got = min(max(got, a), c)
            slack = 1e-6 + 2e-6 * got * abs((b.f(np.array([min(got * 1.000001, c)])) - b.f(np.array([max(got / 1.000001, a)]))
                                             )[0] / b.resp.max()) / (2e-6 * got)
            need(abs(b.f(np.array([got]))[0] / b.resp.max() - 0.5) < 1e-5 + 2 * slack, what, "fwhm", side, got, "response there is",
                 b.f(np.array([got]))[0] / b.resp.max())
    need(kc.close(R.fwhm, float(R.fwhm_high) - float(R.fwhm_low), 1e-5, atol=1e-6 * float(R.fwhm_high)), what, "fwhm", R.fwhm)
    # stars
    for attr, star in (("solar_magnitude", "sun"), ("vega2ab", "vega")):
        got, m = getattr(R, attr), ref.star_magnitude(b, star)
        need((got is None) == (m is None), what, attr, got, "should be", m)
        if m is not None:
            sw, sf = ref.star(star)
            # where the model is sampled very sparsely, rounding its fluxes to single precision shows
            m1 = -2.5 * np.log10(b.project(sw, np.float32(sf * 1e10).astype(float) / 1e10)[0])
            m2 = -2.5 * np.log10(b.project(sw, np.float32(sf).astype(float))[0])
            need(abs(float(got) - m) < mtol + 3 * max(abs(m1 - m), abs(m2 - m)), what, attr, got, "should be", m)


ROUTES = ("arrays", "arrays descending", "text file", "FITS file", "FITS file read over another response", "descending FITS file",
          "text file read over another response")


def make(route, w, r, tag):
    """The same curve by different routes"""
    d = os.path.join(kc.scratch(), "c12")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d" % (tag, os.getpid()))
    if route == "arrays":
        return Response(wave=w.copy(), response=r.copy())
    if route == "arrays descending":
        return Response(wave=w[::-1].copy(), response=r[::-1].copy())
    other = (np.linspace(7000., 8000., 7), np.array([0., 1., 5., 9., 5., 1., 0.]))
    try:
        if route.startswith("text"):
            kc.write_dat(path, w, r)
            if "over" in route:
                R = Response(wave=other[0], response=other[1])
                R.fromdat(filename=path + ".dat")
                return R
            return Response(filename=path + ".dat")
        if "descending" in route:
            t = np.zeros(1, np.dtype([("wave", w.dtype, len(w)), ("response", r.dtype, len(r))]))
            t["wave"], t["response"] = w[::-1], r[::-1]
            fits.BinTableHDU(t, name="FLUX").writeto(path + ".fits", overwrite=True)
            R = Response()
            R.fromfits(filename=path + ".fits")
            return R
        kc.write_dat(path, w, r)
        src = Response(filename=path + ".dat")
        src.tofits(filename=path + ".fits")
        R = Response(wave=other[0], response=other[1]) if "over" in route else Response()
        R.fromfits(filename=path + ".fits")
        return R
    finally:
        for e in (".dat", ".fits"):
            if os.path.exists(path + e):
                os.unlink(path + e)


@check.harness()
def shapes(tier):
    """every curve of 6 (thorough: 7) samples with values in {0, 0.3, 0.7, 1}, not all zero, at two placements, ascending or
    descending"""
    k = 6 if tier == "quick" else 7
    grids = (np.linspace(5000., 6000., k), np.array([5000., 5010., 5300., 5600., 7000., 7020., 9000.])[:k])

    def body(ch):
        v = np.array([ch.pick("sample %d" % i, (0., 0.3, 0.7, 1.)) for i in range(k)])
        if not v.any():
            return None
        w = grids[ch.pick("grid", (0, 1))]
        down = ch.flag("descending")
        R = Response(wave=w[::-1].copy() if down else w.copy(), response=v[::-1].copy() if down else v.copy())
        judge(R, w, v, "%s %s" % (w, v))
        ch.checked()
        return "%d" % (v > 0.5).sum()
    return body


@check.harness()
def orders(tier):
    """every permutation of the samples of a 6-sample curve"""
    w = np.array([5000., 5200., 5300., 5600., 5900., 6000.])
    r = np.array([.1, .7, 1., .6, .3, .05])
    perms = list(itertools.permutations(range(6)))

    def body(ch):
        p = list(perms[ch.pick("order", range(len(perms)))])
        kind = ch.pick("type", (np.float64, np.float32))
        a, b = w[p].astype(kind), r[p].astype(kind)
        R = Response(wave=a, response=b)
        judge(R, w, r, "order %s" % p)
        need(np.array_equal(a, w[p].astype(kind)) and np.array_equal(b, r[p].astype(kind)), "arguments changed")
        ch.checked()
        return "%s" % p
    return body


@check.harness()
def routes(tier):
    """curves of 7 samples at 14 places from the far ultraviolet to beyond the stellar models (inside, across either end and outside),
    4 shapes, created through arrays, text files and FITS files, fresh or read over another response"""
    centers = (50., 80., 95., 400., 900., 1200., 1500., 3000., 5500., 20000., 1e5, 1.5e6, 1.7e6, 5e6)

    def body(ch):
        c = ch.pick("centre", centers)
        f = ch.pick("half width", (0.03, 0.3))
        shape = ch.pick("shape", ((0., .2, .8, 1., .7, .1, 0.), (1., .8, .6, .4, .3, .2, .1), (.1, .3, .4, .45, .6, .9, 1.),
                                  (0., .9, .2, .1, .3, 1., 0.)))
        w = np.round(np.linspace(c * (1 - f), c * (1 + f), 7), 6)
        r = np.array(shape)
        b = ref.Band(w, r)
        for star in ("sun", "vega"):        # flux too small for its sign to mean anything
            m = b.project(*ref.star(star))[0]
            w0 = ref.star(star)[0]
            if abs(m) < 1e-30 and not (w[-1] < w0[0] or w[0] > w0[-1]):
                return None
        route = ch.pick("route", ROUTES)
        R = make(route, w, r, "r%g" % c)
        judge(R, w, r, "%s at %g, half width %g, from %s" % (shape, c, f, route))
        ch.checked()
        return "%s %s %s" % (c, R.solar_magnitude is None, route)
    return body


@check.harness()
def shipped(tier):
    """every shipped response, loaded on its own, after another response, through the registry, and written to FITS and read back"""
    names = ref_names()

    def body(ch):
        i = ch.pick("response", range(len(names)))
        route = ch.pick("route", ("file", "registry", "after another", "FITS", "arrays descending"))
        name = names[i]
        w, r = ref.parse_dat(os.path.join(ref.DATA, "responses", name + ".dat"))
        if route == "file":
            R = Response(filename=name + ".dat")
        elif route == "registry":
            f = kcorrect.response.ResponseDict()
            f.load_response(names[(i + 7) % len(names)])
            f.load_response(name)
            R = f[name]
        elif route == "after another":
            R = Response(filename=names[(i + 1) % len(names)] + ".dat")
            R.fromdat(filename=name + ".dat")
        elif route == "FITS":
            path = os.path.join(kc.scratch(), "c12s-%d.fits" % os.getpid())
            Response(filename=name + ".dat").tofits(filename=path)
            R = Response()
            R.fromfits(filename=path)
            os.unlink(path)
        else:
            R = Response(wave=w[::-1].copy(), response=r[::-1].copy())
        judge(R, w, r, name + " " + route, 2e-4)
        ch.checked()
        return name
    return body
