"""C03 K-corrections relate each output band to its mapped observed band"""
import itertools

import numpy as np

from mc import kc, ref
from mc.common import build, positions
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C03", assumptions=[
    "Band, map, coefficient and redshift alphabets are small; K-corrections are compared with a float64 model to 1e-4 mag "
    "(1e-5 mag for the exact identities)."],
    rule="Executions are all combinations of the alphabets of each harness.")

IN = ("b2", "b3", "b4")


def coeff_patterns(nt, big=True):
    p = []
    for sup in itertools.product((0., 1.), repeat=min(nt, 3)):
        v = np.zeros(nt)
        v[:len(sup)] = np.array(sup) * (1. + np.arange(len(sup)) * 0.8)
        p.append(v)
    if nt > 3:
        p += [np.arange(nt) * 0.5, np.eye(nt)[-1]]
    return p


def judge(k, m, z, c, bs, got, what):
    want = m.kcorrect(z, c, bs)
    need(np.shape(got) == (len(m.out),), what, "shape", np.shape(got), "for", len(m.out), "output bands")
    if not np.any(c > 0):
        need(np.all(np.asarray(got) == 0), what, "zero fit but K-correction", got)
    else:
        need(kc.mclose(got, want), what, "z=%r band_shift=%r coeffs=%s K=%s, should be %s" % (z, bs, c, got, want))


@check.harness()
def maps(tier):
    """every map of 1 to 3 output bands (from 4, observed or not, repeats included) onto 3 observed bands, with every
    coefficient support, several redshifts and band shifts, as a scalar and inside a catalogue"""
    pool = ("b3", "b5", "b2", "b4")
    n = 5

    def body(ch):
        nout = ch.pick("number of output bands", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
        out = [ch.pick("out %d" % i, pool if nout < 3 else pool[:3]) for i in range(nout)]
        rmap = [ch.pick("map %d" % i, IN) for i in range(nout)]
        k, m = build(IN, out, rmap, nt=3, rng=(0., 0.8), n=n)
        cs = coeff_patterns(3)
        for z, bs in ((np.float32(0.33), 0.), (np.float32(0.8), 0.1), (np.float32(0.), 0.5), (np.float32(0.2), 0.2)):
            for c in cs:
                judge(k, m, z, c, bs, k.kcorrect(redshift=z, coeffs=np.float32(c), band_shift=bs), "%s<-%s" % (out, rmap))
                ch.checked()
            arr = k.kcorrect(redshift=np.full(len(cs), z, dtype=np.float32), coeffs=np.float32(cs), band_shift=bs)
            need(np.shape(arr) == (len(cs), nout), "catalogue shape", np.shape(arr))
            for i, c in enumerate(cs):
                judge(k, m, z, c, bs, arr[i], "catalogue row %d %s<-%s" % (i, out, rmap))
                ch.checked()
        return "%s %s" % (out, rmap)
    return body


@check.harness()
def similar_names(tier):
    """bands whose names begin with another band's, differ in case, or are called the same in another directory: every ordered pair
    (thorough: triple) observed, every output band and map"""
    pool = ("s", "s2", "s.2", "sub/s", "S")
    cs = coeff_patterns(3)[-2:]

    def body(ch):
        nin = 2 if tier == "quick" else 3
        i = []
        while len(i) < nin:
            i.append(ch.pick("band %d" % len(i), [x for x in pool if x not in i]))
        out = ch.pick("output", pool)
        rmap = ch.pick("map", i)
        k, m = build(i, (out,) + tuple(i), (rmap,) + tuple(i[::-1]), nt=3, rng=(0., 0.8), n=5)
        need(list(k.responses_out) == m.out and list(k.responses) == m.responses, "bands", k.responses, k.responses_out)
        for c in cs:
            z = np.float32(0.33)
            judge(k, m, z, c, 0.1, k.kcorrect(redshift=z, coeffs=np.float32(c), band_shift=0.1), "%s %s<-%s" % (i, out, rmap))
            need(kc.close(k.reconstruct(redshift=z, coeffs=np.float32(c)), m.A(float(z)).dot(c), 1e-4), i, "reconstruct")
            ch.checked(2)
        return "%s %s" % (out, rmap)
    return body


@check.harness()
def defaults(tier):
    """output bands and map given, omitted, or one of each, for 1 to 5 observed bands in several orders, with list copies"""
    ins = [("b3",), ("b2", "b3"), ("b3", "b2"), ("b4", "b2", "b3"), ("b1", "b2", "b3", "b4", "b5"), ("b5", "b3", "b3", "b1")]

    def body(ch):
        i = ch.pick("bands", ins)
        mode = ch.pick("output bands", ("default", "same list", "copy", "reversed", "rotated", "shifted set"))
        mapm = ch.pick("map", ("default", "same", "reversed", "all first", "all last"))
        out = dict(default=None, copy=list(i), reversed=i[::-1], rotated=i[1:] + i[:1])
        out["same list"] = i
        out["shifted set"] = tuple("b%d" % (int(b[1]) + 1) for b in i)
        rmap = dict(default=None, same=i, reversed=i[::-1])
        rmap["all first"] = (i[0],) * len(i)
        rmap["all last"] = (i[-1],) * len(i)
        k, m = build(i, out[mode], rmap[mapm], nt=4, rng=(0., 0.9), n=5)
        if len(set(i)) < len(i):
            m.imap = [m.responses.index(m.responses[j]) for j in m.imap]
        need(list(k.responses_out) == m.out, "responses_out", k.responses_out)
        for z in (0.41, 0.9):
            for c in coeff_patterns(4):
                judge(k, m, np.float32(z), c, 0., k.kcorrect(redshift=np.float32(z), coeffs=np.float32(c)), "")
                judge(k, m, np.float32(z), c, 0.2, k.kcorrect(redshift=np.float32(z), coeffs=np.float32(c), band_shift=0.2), "")
                ch.checked(2)
        return "%s %s %s" % (i, mode, mapm)
    return body


@check.harness()
def positions_and_scales(tier):
    """every redshift position x band shift position x coefficient support x overall scale of the coefficients,
    for three objects (5 in 5 out, 3 in 5 out, 2 in 1 out)"""
    objs = [build(("b1", "b2", "b3", "b4", "b5"), nt=5, rng=(0., 1.), n=11),
            build(IN, ("b1", "b2", "b3", "b4", "b5"), ("b2", "b2", "b3", "b4", "b4"), nt=4, rng=(0., 0.77), n=9),
            build(("b3", "b4"), ("b2",), ("b4",), nt=2, rng=(0., 2.), n=31, spectra=True)]

    def body(ch):
        k, m = objs[ch.pick("object", range(len(objs)))]
        name, z = ch.pick("redshift", [p for p in positions(m.lo, m.hi, m.n) if m.lo <= p[1] <= m.hi])
        bs = ch.pick("band shift", (0., 0.1, 0.25, 0.5, 1e-3, 0.7))
        c = ch.pick("coefficients", coeff_patterns(m.t.n))
        s = ch.pick("scale", (1., 1e-12, 1e10, 1e-24))
        got = k.kcorrect(redshift=z, coeffs=np.float32(c * s), band_shift=bs)
        judge(k, m, z, c, bs, got, "")
        two = k.kcorrect(redshift=np.float32([0., z, 0.1]), coeffs=np.float32([0. * c, c * s, c]), band_shift=bs)
        judge(k, m, z, c, bs, two[1], "row")
        judge(k, m, 0.1, c, bs, two[2], "row")
        need(np.all(two[0] == 0), "zero fit in a catalogue", two[0])
        ch.checked(4)
        return "%s %s %s" % (name, bs, s)
    return body


@check.harness()
def identities(tier):
    """K = 0 at z = 0 and K = -2.5 log10(1+z) at band shift z, at every grid point and between, for one- and
    many-band objects, scalars and catalogues"""
    objs = [build(("b1", "b2", "b3", "b4", "b5"), nt=5, rng=(0., 1.), n=11), build(("b3",), nt=1, rng=(0., 0.9), n=10),
            build(IN, nt=3, rng=(0., 2.), n=41, spectra=True)]

    def body(ch):
        k, m = objs[ch.pick("object", range(len(objs)))]
        i = ch.pick("cell", range(m.n - 1))
        off = ch.pick("offset", (0., 0.37, 0.99))
        z = np.float32(m.grid[i] + off * (m.grid[1] - m.grid[0]))
        for c in coeff_patterns(m.t.n):
            if not np.any(c):
                continue
            need(np.all(np.abs(k.kcorrect(redshift=np.float32(0.), coeffs=np.float32(c))) < 1e-5), "K at z=0")
            got = k.kcorrect(redshift=z, coeffs=np.float32(c), band_shift=z)
            need(np.all(np.abs(got + 2.5 * np.log10(1. + float(z))) < 2e-5), "band shift = z =", z, "K =", got)
            got = k.kcorrect(redshift=np.float32([z, 0.]), coeffs=np.float32([c, c]), band_shift=float(z))
            need(np.all(np.abs(got[0] + 2.5 * np.log10(1. + float(z))) < 2e-5), "band shift = z =", z, "K =", got)
            ch.checked(3)
        return "%d %s" % (i, off)
    return body


@check.harness()
def shipped_bands(tier):
    """the shipped templates from SDSS to Bessell, 2MASS and band-shifted SDSS bands"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    be = ["bessell_U", "bessell_B", "bessell_V", "bessell_R", "bessell_I"]
    t = ref.DEFAULT_TEMPLATES
    objs = [build(sd, None, None, tfile=t, rng=(0., 0.3), n=4), build(sd, be, sd, tfile=t, rng=(0., 0.3), n=4),
            build(sd, ["twomass_J", "galex_NUV", "sdss_r0"], ["sdss_z0", "sdss_u0", "sdss_r0"], tfile=t, rng=(0., 0.3), n=4)]

    def body(ch):
        k, m = objs[ch.pick("object", range(len(objs)))]
        z = ch.pick("redshift", (0., 0.0512347, 0.1, 0.1734961, 0.3))
        bs = ch.pick("band shift", (0., 0.1, 0.22))
        c = ch.pick("coefficients", coeff_patterns(5))
        judge(k, m, np.float32(z), c, bs, k.kcorrect(redshift=np.float32(z), coeffs=np.float32(c), band_shift=bs), "")
        ch.checked()
        return "%s %s" % (z, bs)
    return body
