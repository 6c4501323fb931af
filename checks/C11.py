"""C11 synthetic photometry is the AB-normalised photon-weighted mean flux"""
import itertools
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
Response = kcorrect.response.Response
SED = kcorrect.template.SED
check = Check("C11", assumptions=[
    "Expected values: trapezoidal integrals over the union of the bandpass grid and the spectrum's samples inside the bandpass, "
    "cubic interpolation, float64, on the same single-precision spectra; values compared to 2e-5 of the mean absolute flux."],
    rule="Executions are all combinations of the alphabets of each harness.")


def curves():
    x = np.linspace(5000., 6000., 11)
    return dict(
        tophat=(np.array([5000., 5300., 5600., 6000.]), np.ones(4)),
        bump=(x, np.clip(1 - ((x - 5500.) / 500.)**2, 0, None)),
        edge=(x, 0.2 + (x - 5000.) / 1000.),
        double=(x, np.array([0., .4, .9, .5, .1, .05, .3, 1., .6, .2, 0.])),
        fine=(np.linspace(5000., 6000., 201), np.exp(-((np.linspace(5000., 6000., 201) - 5400.) / 150.)**2)))


def expected(w, r, sw, sf):
    """(value, scale) of float32 spectra"""
    b = ref.Band(w, r)
    sf = np.atleast_2d(sf)
    v = b.project(sw, sf)
    g = np.unique(np.concatenate([np.asarray(sw, float)[(sw >= b.wave[0]) & (sw <= b.wave[-1])], b.wave]))
    s = np.abs(ref.spline0(sw, sf)(g) / ref.ab_flambda(g)).max(axis=-1)
    return v, s


def judge(got, v, s, *what):
    got = np.asarray(got, dtype=np.float64)
    need(got.size == len(v) and (got.ndim <= 1), *what, "one value per spectrum expected (%d), got shape" % len(v), got.shape)
    got = got.reshape(len(v))
    need(np.all(np.isfinite(got)), *what, "got", got)
    need(np.all(np.abs(got - v) <= 2e-5 * s), *what, "got", got, "should be", v)


SITES = (2000., 3500., 4900., 5000., 5123., 5450., 5730., 6000., 6100., 7500., 12000.)


@check.harness()
def samplings(tier):
    """every sampling of a spectrum that is a subset (at least 4, quick: at most 6) of 11 sites placed far below, below, on the
    low end, inside, on the high end, above and far above the bandpass; 5 bandpass curves; 2 spectral shapes, one of them also 1e24 times fainter and brighter"""
    cs = curves()
    objs = {k: Response(wave=w.copy(), response=r.copy()) for k, (w, r) in cs.items()}
    top = 6 if tier == "quick" else 11

    def body(ch):
        name = ch.pick("bandpass", sorted(cs))
        shape = ch.pick("shape", ("rising", "oscillating", "faint", "bright"))
        sites = []
        for i, s in enumerate(SITES):
            left = len(SITES) - i
            if len(sites) + left == 4 or (len(sites) < top and ch.flag("sample at %g" % s)):
                sites.append(s)
        sw = np.float32(sites)
        x = sw.astype(np.float64) / 5000.
        sf = np.float32(3.631e-20 * 2.99792e18 * 1e18 / 5000.**2 * (x**1.5 if shape == "rising" else 2. + np.sin(3 * x)) / 1e18)
        sf = sf * np.float32({"faint": 1e-24, "bright": 1e24}.get(shape, 1.))
        w, r = cs[name]
        v, s = expected(w, r, sw, sf)
        got = objs[name].project(wave=sw, flux=sf)
        judge(got, v, s, name, shape, sites)
        if sw[-1] < w[0] or sw[0] > w[-1]:
            need(np.all(np.asarray(got) == 0), "no overlap must give 0, got", got)
        two = objs[name].project(wave=sw, flux=np.stack([sf, 0 * sf, 2 * sf]))
        judge(two, np.array([v[0], 0, 2 * v[0]]), np.array([s[0], s[0], 2 * s[0]]), name, shape, sites, "three spectra:")
        ch.checked(2)
        return "%s %d %d" % (name, int((sw < 5000).sum()), int((sw > 6000).sum()))
    return body


@check.harness()
def forms(tier):
    """1-D, 2-D and list arguments, single and double precision, an SED object with and without earlier redshifting, 1 to 4 spectra,
    bandpass inside, overlapping either end of, outside, and narrower than the samples of the spectrum, at 6 redshifts"""
    cs = curves()
    objs = {k: Response(wave=w.copy(), response=r.copy()) for k, (w, r) in cs.items()}

    def body(ch):
        name = ch.pick("bandpass", sorted(cs))
        n = ch.pick("spectra", (1, 2, 3, 4))
        lo, hi, k = ch.pick("spectrum grid", ((1000., 30000., 300), (5200., 5900., 40), (5500., 9000., 60), (1000., 5500., 100),
                                              (100., 4000., 50), (6500., 9000., 50), (300., 20000., 7)))
        z = ch.pick("redshift", (0., 0.1, 1., 0.37, 5., -0.2))
        form = ch.pick("form", ("SED", "SED after another redshift", "SED without interpolator at first", "arrays", "float64 arrays",
                                "lists", "2-D"))
        rw = np.linspace(lo, hi, k).astype(np.float32)
        rf = np.float32([(0.1 + 0.1 * i) * (1 + rw / 1e4)**(i - 1.) for i in range(n)])
        sw = np.float32(rw * np.float32(1. + z))
        sf = np.float32(rf / np.float32(1. + z))
        R = objs[name]
        if form.startswith("SED"):
            sed = SED(wave=rw.copy(), flux=rf.copy(), interpolate="without" not in form)
            if "another" in form:
                sed.set_redshift(0.77)
                R.project(sed=sed)
            if "without" in form:
                sed.set_interp()
            sed.set_redshift(z)
            got = R.project(sed=sed)
            need(kc.same(sed.restframe_flux, rf) and kc.same(sed.restframe_wave, rw), "projection changed the spectrum")
        elif form == "lists":
            got = R.project(wave=[float(x) for x in sw], flux=sf.tolist() if n > 1 else sf[0].tolist())
        elif form == "2-D" or n > 1:
            a = sf.astype(np.float64) if "64" in form else sf
            got = R.project(wave=sw, flux=a)
        elif form == "float64 arrays":
            got = R.project(wave=sw.astype(np.float64), flux=sf[0].astype(np.float64))
        else:
            got = R.project(wave=sw, flux=sf[0])
        v, s = expected(*cs[name], sw, sf)
        # the end samples move by single-precision rounding across the bandpass ends
        judge(got, v, s + (0.5 * s if z in (0.1, 0.37, -0.2) and (np.abs(sw[[0, -1]] / 5000. - 1) < 1e-6).any() else 0),
              name, n, (lo, hi, k), z, form)
        ch.checked()
        return "%s %d %s %s" % (name, n, z, form)
    return body


@check.harness()
def sample_order(tier):
    """every order (permutation) of the 5 (thorough: 6) samples of a bandpass, times 4 normalisations"""
    n = 5 if tier == "quick" else 6
    w = np.array([5000., 5200., 5300., 5600., 5900., 6000.])[:n]
    r = np.array([.1, .7, 1., .6, .3, 0.])[:n]
    sw = np.float32(np.linspace(4000., 7000., 61))
    sf = np.float32(1. + (sw / 5000.)**2)
    perms = list(itertools.permutations(range(n)))

    def body(ch):
        p = list(perms[ch.pick("order", range(len(perms)))])
        k = ch.pick("normalisation", (1., 1e-4, 37., 1e6))
        R = Response(wave=w[p].copy(), response=r[p] * k)
        v, s = expected(w, r, sw, sf)
        judge(R.project(wave=sw, flux=sf), v, s, "order", p, "times", k)
        judge(R.project(sed=SED(wave=sw, flux=sf)), v, s, "order", p, "times", k)
        ch.checked(2)
        return "%s" % k
    return body


@check.harness()
def spectrum_order(tier):
    """every order of the 5 (thorough: 6) samples of a spectrum, for spectra with samples below, inside and above the bandpass, with none
    inside, only partly over it and beside it; one and three spectra; arrays and SED objects at two redshifts"""
    cs = curves()
    objs = {k: Response(wave=w.copy(), response=r.copy()) for k, (w, r) in cs.items()}
    n = 5 if tier == "quick" else 6
    places = dict(over=(3000., 4900., 5300., 5800., 6500., 9000.), around=(2000., 3500., 4900., 6100., 7500., 9000.),
                  lower=(1000., 2000., 4000., 4900., 5400., 5500.), upper=(5900., 6000., 6500., 7000., 8000., 9000.),
                  beside=(6001., 6500., 7000., 8000., 9000., 9500.), inside=(5050., 5200., 5300., 5500., 5700., 5900.))
    perms = list(itertools.permutations(range(n)))

    def body(ch):
        name = ch.pick("bandpass", ("bump", "edge", "fine"))
        place = ch.pick("samples", list(places))
        p = list(perms[ch.pick("order", range(len(perms)))])
        sw = np.float32(places[place][:n])
        sf = np.float32([1. + (sw / 5000.)**2, 2. + np.sin(sw / 700.), sw / 4000.])
        v, s = expected(*cs[name], sw, sf)
        R = objs[name]
        what = (name, place, sw[p])
        judge(R.project(wave=sw[p], flux=sf[:, p]), v, s, *what)
        judge(R.project(wave=sw[p], flux=sf[0, p]), v[:1], s[:1], *what)
        judge(R.project(sed=SED(wave=sw[p], flux=sf[:, p])), v, s, *what)
        sed = SED(wave=(sw / np.float32(1.25))[p], flux=(sf[1] * np.float32(1.25))[p])
        sed.set_redshift(0.25)
        if place != "upper":                                # a sample would move off the bandpass's end
            judge(R.project(sed=sed), v[1:2], s[1:2], *what, "redshifted")
        ch.checked(4)
        return "%s %s" % (name, place)
    return body


@check.harness()
def counts(tier):
    """1 to 12 and some large numbers of spectra; every value is that of the spectrum on its own; sums and multiples"""
    cs = curves()
    objs = {k: Response(wave=w.copy(), response=r.copy()) for k, (w, r) in cs.items()}
    big = (16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 500, 999, 1000, 1001) + (() if tier == "quick" else (2000, 2001, 4097))

    def body(ch):
        name = ch.pick("bandpass", sorted(cs))
        n = ch.pick("spectra", tuple(range(1, 13)) + big)
        lo, hi = ch.pick("range", ((3000., 9000.), (5400., 9000.), (100., 900.)))
        sw = np.float32(np.linspace(lo, hi, 60))
        i = np.arange(n)[:, None]
        sf = np.float32((1. + i % 13) * (1 + sw / 1e4)**((i * 7) % 5 - 2.) * (1 - 2 * (i % 4 == 3)))
        v, s = expected(*cs[name], sw, sf)
        s = np.maximum(s, 1e-30)
        judge(objs[name].project(wave=sw, flux=sf), v, s, name, n)
        judge(objs[name].project(sed=SED(wave=sw, flux=sf)), v, s, name, n, "SED")
        for j in sorted({0, n // 2, n - 1}):
            judge(objs[name].project(wave=sw, flux=sf[j]), v[j:j + 1], s[j:j + 1], name, n, "alone")
        a, b = sf[0], sf[-1]
        comb = np.float32(2.5 * a.astype(np.float64) - 0.5 * b)
        judge(objs[name].project(wave=sw, flux=comb), np.array([2.5 * v[0] - 0.5 * v[-1]]), np.array([2.5 * s[0] + .5 * s[-1]]),
              name, "linear combination")
        ch.checked(6)
        return "%s %d" % (name, n)
    return body


@check.harness()
def shipped(tier):
    """every shipped response, the five default templates and the AB source, at redshifts 0 and 1 (thorough: 5 redshifts, and
    each response in both single and double precision spectra)"""
    names = ref_names()
    T = ref.Templates(ref.DEFAULT_TEMPLATES)
    sed = kcorrect.template.Template(filename=ref.DEFAULT_TEMPLATES, interpolate=True)
    rw, rf = np.float32(T.wave), np.float32(T.flux)
    zs = (0., 1.) if tier == "quick" else (0., 1., 0.05, 0.5, 3.)

    def body(ch):
        name = names[ch.pick("response", range(len(names)))]
        z = ch.pick("redshift", zs)
        R = Response(filename=name + ".dat")
        b = ref.band(name)
        sed.set_redshift(z)
        w, f = rw.astype(np.float64) * (1 + z), rf.astype(np.float64) / (1 + z)
        v = b.project(w, f)
        got = np.asarray(R.project(sed=sed), dtype=np.float64)
        need(kc.close(got, v, 2e-4), name, "z=%g" % z, "got", got, "should be", v)
        if v[0] == 0:
            need(np.all(got == 0), name, "not zero outside")
        lo, hi = b.wave[0], b.wave[-1]
        for n, a, c in ((3000, 0.9, 1.1), (1500, 0.3, 4.)):
            g = np.float32(np.linspace(lo * a, hi * c, n))
            s = kcorrect.utils.sed_ab(g)
            need(kc.close(s, ref.ab_flambda(g), 2e-6), "AB source at", g[0], "is", s[0], "should be", ref.ab_flambda(g)[0])
            one = R.project(wave=g, flux=s)
            need(abs(float(one) - b.project(g, np.float32(s))[0]) < 1e-5, name, "AB source gives", one)
            if (g[1] - g[0]) < 0.05 * lo:
                need(abs(float(one) - 1.) < 1e-3, name, "AB source gives", one)
        ch.checked(7)
        return name
    return body


def ref_names():
    names = []
    d = os.path.join(ref.DATA, "responses")
    for x in sorted(os.listdir(d)):
        if x.endswith(".dat") and os.path.isfile(os.path.join(d, x)):
            try:
                ref.band(x[:-4])
                names.append(x[:-4])
            except (ref.ParseError, ValueError):
                pass
    if len(names) < 300:
        raise AssertionError("only %d responses" % len(names))
    return names
