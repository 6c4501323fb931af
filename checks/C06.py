"""C06 derived quantities are the fit-weighted template properties"""
import itertools
import os

import astropy.cosmology
import numpy as np

from mc import kc, ref
from mc.common import build
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C06", assumptions=[
    "Quantities are compared with a float64 model to 1e-4 (relative; plus 1e-6/z, because a cosmology may round 1 + z to single "
    "precision).",
    "With a band shift the mass-to-light ratio uses the solar magnitude of the unshifted response (as documented: 'the response's "
    "solar luminosity')."],
    rule="Executions are all combinations of the alphabets of each harness.")

COSMO = astropy.cosmology.FlatLambdaCDM(H0=70., Om0=0.3)
KEYS = ["mremain", "intsfh", "mtol", "b50", "b300", "b1000", "metallicity"]


def xray():
    """A band shortward of the Sun's model spectrum, and templates that cover it"""
    d = kc.scratch()
    name = kc.write_dat(os.path.join(d, "bands", "xray"), *kc.bump(60., 25., 13))
    path = os.path.join(d, "wide.fits")
    wave, flux, prop = kc.template_arrays(3, 300, wlo=25., whi=40000.)
    kc.write_templates(path, wave, flux, prop)
    return name, path


def objects():
    B = ("b2", "b3", "b4")
    xr, wide = xray()
    return [("3 bands", build(B, nt=3, rng=(0., 1.), n=6)),
            ("2 in 5 out", build(("b2", "b4"), ("b1", "b2", "b3", "b5", "b3"), ("b2",) * 5, nt=4, rng=(0., 1.), n=6, cosmo=COSMO)),
            ("3 in 1 out", build(B, ("b5",), ("b4",), nt=5, rng=(0., 1.), n=6)),
            ("3 in 3 out", build(B, ("b4", "b5", "b2"), ("b2",) * 3, nt=3, rng=(0., 1.), n=6)),
            ("1 band 1 template", build(("b3",), nt=1, rng=(0., 1.), n=6)),
            ("no solar magnitude", build(B, ("b3", xr, "b2"), ("b2",) * 3, tfile=wide, rng=(0., 1.), n=6))]


def judge(got, want, what, row=None, z=1.):
    tol = 1e-4 + 1e-6 / float(z)     # a cosmology may round 1 + z to single precision
    need(sorted(got) == sorted(KEYS), what, "keys", sorted(got))
    for q in KEYS:
        g = np.asarray(got[q], dtype=np.float64)
        if row is not None:
            need(g.ndim >= 1, what, q, "has no row axis")
            g = g[row]
        w = np.asarray(want[q], dtype=np.float64)
        need(g.shape == w.shape, what, q, "shape", g.shape, "not", w.shape)
        need(kc.close(g, w, tol, 0.), what, q, "= %s, should be %s" % (g, w))


def coeffs(nt):
    r = [np.array(s) * (0.6 + np.arange(len(s)) * 0.9) for s in itertools.product((1., 0.), repeat=min(nt, 4))]
    r = [np.concatenate([x, np.ones(nt - len(x)) * 0.7 * (x.sum() > 0)]) for x in r]
    return r + [np.eye(nt)[-1]]


@check.harness()
def supports(tier):
    """every coefficient support pattern x overall scale x redshift x band shift x distance given or not, for six objects,
    as a scalar and in catalogues of one and three rows"""
    objs = objects()

    def body(ch):
        name, (k, m) = objs[ch.pick("object", range(len(objs)))]
        c = ch.pick("coefficients", coeffs(m.t.n)) * ch.pick("scale", (1., 1e-10, 1e10))
        z = np.float32(ch.pick("redshift", (0.1046183, 0.0031416, 0.9687431, 0.5)))
        bs = ch.pick("band shift", (0., 0.1))
        d = ch.pick("distance", (None, 100., 1e-5, 7654.))
        d32 = None if d is None else np.float32(d)
        want = m.derived(z, c, bs, None if d is None else float(d32))
        what = "%s z=%s bs=%s distance=%s coeffs=%s" % (name, z, bs, d, c)
        judge(k.derived(redshift=z, coeffs=np.float32(c), band_shift=bs, distance=d32), want, what, None, z)
        got = k.derived(redshift=np.float32([z]), coeffs=np.float32([c]), band_shift=bs,
                        distance=None if d is None else np.float32([d]))
        judge(got, want, what + " one row", 0, z)
        other = 1. + np.arange(m.t.n)[::-1]
        got = k.derived(redshift=np.float32([0.77, z, 0.2]), coeffs=np.float32([0. * c, c, other]), band_shift=bs,
                        distance=None if d is None else np.float32([5., d, 12.]))
        judge(got, want, what + " row 1", 1, z)
        judge(got, m.derived(0.77, 0. * c, bs, None if d is None else 5.), what + " row 0", 0)
        judge(got, m.derived(0.2, other, bs, None if d is None else 12.), what + " row 2", 2)
        ch.checked(5)
        return "%s %s %s" % (name, c > 0, d)
    return body


@check.harness()
def consistency(tier):
    """distance given from the cosmology = not given; ratios independent of distance and scale"""
    objs = objects()

    def body(ch):
        name, (k, m) = objs[ch.pick("object", range(len(objs)))]
        c = ch.pick("coefficients", coeffs(m.t.n))
        z = np.float32(ch.pick("redshift", (0.001, 0.0512347, 0.3071529, 0.6, 1.0)))
        array = ch.flag("array")
        dl = np.float32(k.cosmo.luminosity_distance(float(z)).to_value("Mpc"))

        def run(c, z, d):
            if array:
                r = k.derived(redshift=np.float32([z, 0.5]), coeffs=np.float32([c, 2. * c]),
                              distance=None if d is None else np.float32([d, 3.]))
                return {q: np.asarray(v)[0] for q, v in r.items()}
            return k.derived(redshift=z, coeffs=np.float32(c), distance=d)
        a, b = run(c, z, None), run(c, z, dl)
        judge(a, b, "distance from the cosmology", None, z)
        s = run(c * 1e3, z, dl)
        t = run(c, z, np.float32(dl * 30.))
        for q in ("metallicity", "b50", "b300", "b1000", "mtol"):
            need(kc.close(b[q], s[q], 1e-4), q, "depends on the scale of the fit", a[q], s[q])
            need(kc.close(b[q], t[q], 1e-4), q, "depends on the distance", a[q], t[q])
        for q in ("mremain", "intsfh"):
            need(kc.close(s[q], 1e3 * np.asarray(b[q], dtype=float), 1e-4), q, "not proportional to the fit")
            need(kc.close(t[q], 900. * np.asarray(b[q], dtype=float), 1e-4), q, "not proportional to distance squared")
        ch.checked(4)
        return "%s %s" % (name, c > 0)
    return body


@check.harness()
def shipped(tier):
    """the shipped template sets (one without M50) and bands, input bands and other output bands"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    objs = [build(sd, tfile=ref.DEFAULT_TEMPLATES, rng=(0., 0.4), n=3),
            build(sd[1:3], ["bessell_B", "twomass_Ks", "galex_FUV", "sdss_z0"], ["sdss_g0"] * 4, tfile=ref.DEFAULT_TEMPLATES,
                  rng=(0., 0.4), n=3),
            build(sd[1:4], tfile=ref.LRG_TEMPLATES, rng=(0., 0.4), n=3)]

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        c = ch.pick("coefficients", coeffs(m.t.n)) * 1e-8
        z = np.float32(ch.pick("redshift", (0.0213579, 0.3)))
        bs = ch.pick("band shift", (0., 0.1))
        judge(k.derived(redshift=z, coeffs=np.float32(c), band_shift=bs), m.derived(z, c, bs), "object %d" % i)
        judge(k.derived(redshift=np.float32([z, z]), coeffs=np.float32([c, 0. * c]), band_shift=bs), m.derived(z, c, bs),
              "object %d row 0" % i, 0)
        ch.checked(2)
        return "%d %s" % (i, c > 0)
    return body
