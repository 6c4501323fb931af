"""C05 absolute magnitudes follow m - DM - K with -9999 for undefined values"""
import itertools

import astropy.cosmology
import numpy as np

from mc import kc, ref
from mc.common import build
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C05", assumptions=["Magnitudes are compared with a float64 model to 1e-4 mag (plus 1e-6/z: 1 + z may be rounded to single "
                                 "precision in the cosmology); -9999 exactly."],
              rule="Executions are all combinations of the alphabets of each harness.")

COSMO = astropy.cosmology.FlatLambdaCDM(H0=70., Om0=0.3)
FLAGS = list(itertools.product((False, True), repeat=3))


def objects():
    r = [("3 bands", build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6)),
         ("3 in 4 out", build(("b2", "b3", "b4"), ("b5", "b3", "b2", "b3"), ("b4", "b2", "b2", "b3"), nt=4, rng=(0., 1.), n=6)),
         ("3 in 2 out", build(("b2", "b3", "b4"), ("b1", "b4"), ("b4", "b2"), nt=3, rng=(0., 1.), n=6, cosmo=COSMO)),
         ("3 in 3 out", build(("b2", "b3", "b4"), ("b4", "b3", "b5"), ("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6, spectra=True)),
         ("1 band", build(("b3",), nt=1, rng=(0., 1.), n=6)),
         ("5 bands", build(("b1", "b2", "b3", "b4", "b5"), nt=5, rng=(0., 1.), n=6))]
    return r


def call(k, flags, **kw):
    r, l, kk = flags
    res = k.absmag(reconstruct=r, limit=l, kcorrect=kk, **kw)
    nreq = 1 + sum(flags)
    if nreq == 1:
        need(isinstance(res, np.ndarray), "result is", type(res))
        res = (res,)
    need(isinstance(res, tuple) and len(res) == nreq, "%d outputs requested, got %s" % (nreq, type(res)))
    names = ["absmag"] + [n for n, f in zip(("reconstruct", "limit", "kcorrect"), flags) if f]
    return dict(zip(names, res))


def judge(got, want, what, z=1.):
    # a cosmology may be evaluated in single precision, where 1 + z is rounded
    tol = 1e-4 + (1e-6 / float(z) if z > 0 else 0.)
    for q in got:
        g, w = np.asarray(got[q], dtype=np.float64), want[q]
        need(g.shape == w.shape, what, q, "shape", g.shape, "not", w.shape)
        need(np.array_equal(g == -9999., w == -9999.), what, q, "= %s, should be %s" % (g, w))
        need(kc.mclose(g, w, tol), what, q, "= %s, should be %s" % (g, w))


def coeffs(nt):
    return [0.4 + np.arange(nt), np.zeros(nt), np.eye(nt)[-1] * 3e9, 1e-9 * (1. + np.arange(nt)[::-1]),
            1e-24 * (1. + np.arange(nt))]


@check.harness()
def sign_patterns(tier):
    """every pattern over 3 bands of flux (positive, faint, zero, negative) and inverse variance (positive, zero, negative) with
    every subset of optional outputs, zero and nonzero fits, several objects, as a scalar"""
    objs = objects()[:4]
    fl, iv = (1.3, 1e-22, 0., -0.7), (50., 0., -2.)

    def body(ch):
        name, (k, m) = objs[ch.pick("object", range(len(objs)))]
        f = np.float32([ch.pick("flux %d" % i, fl) for i in range(3)])
        w = np.float32([ch.pick("ivar %d" % i, iv) for i in range(3)])
        cs = coeffs(m.t.n)
        for c, z, bs in ((cs[0], 0.23, 0.), (cs[1], 0.5, 0.1), (cs[4], 0.8, 0.)) if tier == "quick" else itertools.product(
                cs, (0.23, 0.8), (0., 0.1)):
            want = m.absmag(z, f, w, c, bs)
            for flags in FLAGS:
                got = call(k, flags, redshift=np.float32(z), maggies=f, ivar=w, coeffs=np.float32(c), band_shift=bs)
                judge(got, want, "%s z=%s bs=%s %s %s %s %s" % (name, z, bs, f, w, c, flags))
                ch.checked()
        return "%s %s" % (np.sign(f), np.sign(w))
    return body


@check.harness()
def catalogues(tier):
    """catalogues of 1 to 3 objects mixing sign patterns and zero fits, with every subset of optional outputs, with and without
    distances, for every object"""
    objs = objects()

    def body(ch):
        name, (k, m) = objs[ch.pick("object", range(len(objs)))]
        nb, nt = len(m.responses), m.t.n
        n = ch.pick("rows", (1, 2, 3))
        cs = coeffs(nt)
        kinds = [(np.ones(nb), np.ones(nb), cs[0]), (np.ones(nb), 0. * np.ones(nb), cs[2]), (-np.ones(nb), np.ones(nb), cs[0]),
                 (np.arange(nb) % 2 + 0.1, 20. * (np.arange(nb) % 3), cs[1]), (np.arange(nb) - 0.5, 1. + np.arange(nb), cs[3]),
                 (2. - 3. * (np.arange(nb) % 2), 10.**(np.arange(nb) * 6. - 8.), cs[0]),
                 (1e-23 * (1. + np.arange(nb)), 1e37 * (1. + np.arange(nb)), cs[4])]
        rows = [ch.pick("row %d" % i, kinds) for i in range(n)]
        dist = ch.flag("distance")
        bs = ch.pick("band shift", (0., 0.13))
        z = np.float32([0.11, 0.46, 0.9])[:n]
        d = np.float32([100., 3.7e-3, 25000.])[:n] if dist else None
        f, w, c = (np.float32([r[i] for r in rows]) for i in range(3))
        want = [m.absmag(z[i], f[i], w[i], c[i], bs, None if d is None else d[i]) for i in range(n)]
        want = {q: np.array([x[q] for x in want]) for q in want[0]}
        for flags in FLAGS:
            got = call(k, flags, redshift=z, maggies=f, ivar=w, coeffs=c, band_shift=bs, distance=d)
            judge(got, want, "%s %s" % (name, flags))
            ch.checked()
        return "%s %d" % (name, n)
    return body


@check.harness()
def distances(tier):
    """the luminosity distance of the object's cosmology given explicitly, compared with the default; distances over many
    decades including redshift zero; scalar and catalogue"""
    objs = objects()

    def body(ch):
        name, (k, m) = objs[ch.pick("object", range(len(objs)))]
        nb, nt = len(m.responses), m.t.n
        z = ch.pick("redshift", (1.2345e-4, 0.0123456, 0.1046183, 0.5173952, 1.0, 0.))
        d = ch.pick("distance", ("cosmology", 1e-5, 1e-3, 1., 100., 6789., 5e4))
        bs = ch.pick("band shift", (0., 0.1, 1.0))
        c = ch.pick("coefficients", coeffs(nt))
        f, w = np.linspace(1., 2., nb) * 1e-8, np.linspace(1., 3., nb) * 1e18
        z32 = np.float32(z)
        if d == "cosmology":
            if z == 0.:
                return "skip"
            want = m.absmag(z, f, w, c, bs)
            dd = k.cosmo.luminosity_distance(float(z32)).to_value("Mpc")
        else:
            want = m.absmag(z, f, w, c, bs, float(np.float32(d)))
            dd = d
        for flags in FLAGS:
            ds = [np.float32(dd)] if d != "cosmology" else [np.float32(dd), None]
            for x in ds:
                got = call(k, flags, redshift=z32, maggies=np.float32(f), ivar=np.float32(w), coeffs=np.float32(c), band_shift=bs,
                           distance=x)
                judge(got, want, "%s z=%s distance=%s %s" % (name, z, x, flags), z if d == "cosmology" else 1.)
                got = call(k, flags, redshift=np.float32([z32, 0.3]), maggies=np.float32([f, f]), ivar=np.float32([w, w]),
                           coeffs=np.float32([c, c]), band_shift=bs, distance=None if x is None else np.float32([x, 700.]))
                judge({q: v[0] for q, v in got.items()}, want, "%s z=%s distance=%s %s" % (name, z, x, flags),
                      z if d == "cosmology" else 1.)
                w2 = m.absmag(0.3, f, w, c, bs, None if x is None else 700.)
                judge({q: v[1] for q, v in got.items()}, w2, "%s row 1 z=%s distance=%s %s" % (name, z, x, flags))
                ch.checked(3)
        return "%s %s %s" % (name, z, d)
    return body


@check.harness()
def fitted(tier):
    """fit, then absolute magnitudes of the fit, with shipped bands and templates: every zero-weight subset of 5 bands,
    bands to bands, input errors and negative fluxes"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    t = ref.DEFAULT_TEMPLATES
    objs = [build(sd, tfile=t, rng=(0., 0.4), n=5),
            build(sd, ["bessell_U", "bessell_V", "twomass_J"], ["sdss_u0", "sdss_g0", "sdss_z0"], tfile=t, rng=(0., 0.4), n=5)]
    f0 = np.array([1., 4.78, 10.96, 14.45, 19.05]) * 1e-9
    w0 = np.array([1100., 28., 7., 4.4, 2.5]) * 1e18

    def body(ch):
        k, m = objs[ch.pick("object", range(len(objs)))]
        z = np.float32(ch.pick("redshift", (0.0312468, 0.2037461, 0.4)))
        keep = np.array([ch.pick("band %d" % i, ("good", "no weight", "negative")) for i in range(5)])
        f = np.float32(np.where(keep == "negative", -f0 * 0.1, f0))
        w = np.float32(np.where(keep == "no weight", 0., w0))
        c = k.fit_coeffs(redshift=z, maggies=f, ivar=w)
        for bs in (0., 0.1):
            got = call(k, (True, True, True), redshift=z, maggies=f, ivar=w, coeffs=c, band_shift=bs)
            judge(got, m.absmag(z, f, w, np.float32(c), bs), "z=%s %s" % (z, keep))
            ch.checked()
        return str(keep)
    return body
