"""C07 Monte Carlo output is the ordinary computation on perturbed fluxes"""
import itertools

import numpy as np

from mc import kc, ref
from mc.common import build
from mc.engine import Check, need

kc.patch_noise()
kcorrect = kc.load()
from checks.C01 import judge as optimal                      # noqa: E402

check = Check("C07", assumptions=[
    "The random numbers are scripted: numpy's normal generators are replaced before kcorrect is imported, so every draw is a choice "
    "of the explorer; their distribution is out of scope (C25).",
    "Which scripted number goes to which band and draw is left open: each perturbation must use one of its own."],
    rule="Executions are all combinations of the alphabets of each harness, including the scripted noise.")

DIST = (None, 100.)


def residuals(m, f, w, fmc, what):
    """Standardised perturbations of one object, after checking the unweighted bands"""
    f, w = np.float32(f), np.float32(w)
    need(np.all(np.isfinite(fmc)), what, "perturbed fluxes not finite")
    r = []
    for b in range(len(f)):
        if w[b] > 0:
            r += list((fmc[b].astype(np.float64) - float(f[b])) * np.sqrt(float(w[b])))
        else:
            need(kc.close(fmc[b], np.full(len(fmc[b]), f[b]), 1e-6), what, "band %d without weight perturbed: %s from %s" % (b, fmc[b], f[b]))
    return r


def own_draws(res, taken, tol, what):
    """Every perturbation is a scripted number of its own"""
    if not taken:
        # the random numbers came from elsewhere: only plausibility can be judged
        need(len(set(np.float32(res))) == len(res), what, "perturbations are not independent:", res)
        need(np.all(np.abs(res) < 9.), what, "perturbations are not of unit variance:", res)
        return
    left = np.sort(taken)
    p = 0
    for x in sorted(res):
        while p < len(left) and left[p] < x - tol:
            p += 1
        need(p < len(left) and left[p] < x + tol, what,
             "perturbation %.5f is not a unit-normal draw of its own; drawn: %s, perturbations: %s"
             % (x, np.round(taken[:50], 4), np.round(res[:50], 4)) if p >= len(left) or left[p] >= x + tol else "")
        p += 1


def unpack(r, n, nt, nb, mc, what):
    need(isinstance(r, tuple) and len(r) == 3, what, "fit_coeffs(mc) returned", type(r))
    lead = () if n is None else (n,)
    for x, s in zip(r, ((nt,), (nt, mc), (nb, mc))):
        need(np.shape(x) == lead + s, what, "shape", np.shape(x), "should be", lead + s)
    return r if n is not None else tuple(np.asarray(x)[None] for x in r)




def run(ch, k, m, z, f, w, scalar, mc, tol, what, fab=None, wab=None):
    """Fit with mc draws and judge everything that comes back"""
    n = len(z)
    fab = f if fab is None else fab
    wab = w if wab is None else wab
    nb, nt = len(m.responses), m.t.n
    if scalar:
        args = dict(redshift=np.float32(z[0]), maggies=np.float32(f[0]), ivar=np.float32(w[0]))
    else:
        args = dict(redshift=np.float32(z), maggies=np.float32(f), ivar=np.float32(w))
    plain = np.atleast_2d(k.fit_coeffs(**args))
    c, cmc, fmc = unpack(k.fit_coeffs(mc=mc, **args), None if scalar else n, nt, nb, mc, what)
    taken = list(kc.NOISE.taken)
    need(kc.close(c, plain, 1e-4, 1e-5 * np.abs(plain).max()), what, "best fit", c, "differs from that without Monte Carlo", plain)
    res = []
    for i in range(n):
        if not m.lo <= np.float32(z[i]) <= m.hi:
            need(np.all(cmc[i] == 0) and np.all(c[i] == 0), what, "row %d out of range: coefficients %s" % (i, cmc[i]))
            need(kc.close(fmc[i], np.repeat(np.float32(fab[i])[:, None], mc, axis=1), 1e-6), what,
                 "row %d out of range: fluxes %s" % (i, fmc[i]))
            continue
        res += residuals(m, fab[i], wab[i], fmc[i], what)
        for d in range(mc):
            optimal(m, z[i], fmc[i][:, d], wab[i], cmc[i][:, d], "%s row %d draw %d" % (what, i, d))
            ch.checked()
    own_draws(res, taken, tol, what)
    return res


@check.harness()
def scripted_noise(tier):
    """every noise script over {0, 1, -2.5, 6} for up to 4 draws (thorough: 6), over weight patterns of 2 bands, scalar or one-row or two-row
    catalogue, 1 to 3 Monte Carlo sets"""
    k, m = build(("b2", "b4"), nt=2, rng=(0., 1.), n=6)
    f0 = np.array([[1., 2.], [3., 0.7]])
    limit = 4 if tier == "quick" else 6

    def body(ch):
        scalar, n = ch.pick("catalogue", ((True, 1), (False, 1), (False, 2)))
        mc = ch.pick("mc", (1, 2, 3))
        w = [ch.pick("weights %d" % i, ((16., 4.), (0., 9.), (9., 0.), (0., 0.))) for i in range(n)]

        def script(i):
            return ch.pick("noise %d" % i, (0., 1., -2.5, 6.)) + 0.013 * i if i < limit else (i * 0.37) % 3. - 1.5
        kc.NOISE.reset(script)
        z = [0.23, 0.6][:n]
        res = run(ch, k, m, z, f0[:n], w, scalar, mc, 2e-4, "mc=%d weights=%s" % (mc, w))
        return "%s %d %s" % (scalar, mc, np.round(res, 2))
    return body


@check.harness()
def environments(tier):
    """catalogues of 1 to 3 objects in and out of the redshift range x weight patterns x flux scales, for objects with 1 to 5 bands
    (SDSS fluxes corrected to AB included), 1 to 3 Monte Carlo sets"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    objs = [build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6), build(("b3",), nt=1, rng=(0., 1.), n=6),
            build(sd, nt=4, rng=(0., 1.), n=4, cls=kcorrect.kcorrect.KcorrectSDSS),
            build(("b1", "b2", "b3", "b4"), nt=5, rng=(0.1, 0.5), n=4)]
    sdfac = np.array([ref.ab_factor(i) for i in range(5)])

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        nb = len(m.responses)
        n = ch.pick("rows", (0, 1, 2, 3))
        scalar, n = n == 0, max(n, 1)
        mc = ch.pick("mc", (1, 2, 3))
        z = [ch.pick("z %d" % j, (m.lo, 0.27, m.hi, 3., -0.5)) for j in range(n)]
        s = ch.pick("scale", (1., 1e-9))
        pat = ch.pick("weights", ("all", "none", "first", "not first", "alternate", "per row", "faint", "very faint", "negative"))
        w = np.ones((n, nb)) * 25.
        if pat == "none":
            w[:] = 0
        elif pat == "first":
            w[:, 1:] = 0
        elif pat == "not first":
            w[:, 0] = 0
        elif pat == "alternate":
            w[:, ::2] = 0
        elif pat == "per row":
            for j in range(n):
                w[j, j % nb] = 0
        elif pat == "faint":
            w[:, ::2] = 1e-5
        elif pat == "very faint":
            w[:, ::2] = 1e-9
        f = np.array([[1. + 0.3 * b + j - (2.5 if b == 1 and j == 1 else 0) for b in range(nb)] for j in range(n)])
        if pat == "faint":
            f[:, -1] = 0.
        if pat == "negative":
            f[:, -1] = -3.
            f[0] = -f[0]
        f, w = np.float32(f * s), np.float32(w / s**2)
        kc.NOISE.reset(lambda q: ((q * 0.618034) % 1. - 0.5) * 5. + 0.01 * q)
        fab, wab = f, w
        if i == 2:
            fab, wab = np.float32(f * sdfac), np.float32(w / sdfac**2)
        res = run(ch, k, m, z, f, w, scalar, mc, 1e-3, "object %d z=%s weights=%s" % (i, z, pat), fab, wab)
        return "%d %d %d %s %d" % (i, n, mc, pat, len(res))
    return body


@check.harness()
def many_draws(tier):
    """numbers of Monte Carlo sets around powers of two and ten, for a scalar and catalogues"""
    k, m = build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6)
    counts = (4, 5, 8, 9, 10, 11, 16, 17, 31, 32, 33, 50, 64, 99, 100, 101, 128, 129, 255, 256, 257, 300, 500)

    def body(ch):
        mc = ch.pick("mc", counts)
        n = ch.pick("rows", (0, 1, 2))
        kc.NOISE.reset(lambda q: ((q * 0.6180339887) % 1. - 0.5) * 6.)
        f = np.array([[1., 2., 3.], [4., 1., 0.5]])[:max(n, 1)]
        w = np.array([[9., 0., 4.], [1., 16., 9.]])[:max(n, 1)]
        run(ch, k, m, [0.3, 0.8][:max(n, 1)], f, w, n == 0, mc, 2e-4, "mc=%d rows=%d" % (mc, n))
        return "%d %d" % (mc, n)
    return body


def outputs():
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    return [build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6),
            build(("b2", "b3"), ("b4", "b1", "b2", "b5"), ("b3", "b2", "b2", "b3"), nt=4, rng=(0., 1.), n=6),
            build(("b2", "b3", "b4", "b5"), ("b3",), ("b4",), nt=2, rng=(0., 1.), n=6),
            build(("b3",), nt=1, rng=(0., 1.), n=6),
            build(sd, nt=3, rng=(0., 1.), n=4, cls=kcorrect.kcorrect.KcorrectSDSS),
            build(sd, ["sdss_r0", "bessell_V"], ["sdss_r0", "sdss_g0"], nt=3, rng=(0., 1.), n=4,
                  cls=kcorrect.kcorrect.KcorrectSDSS)]


@check.harness()
def magnitudes_and_derived(tier):
    """absmag_mc and derived_mc for fluxes and coefficients distinct per draw, zero fits, negative fluxes and missing bands
    included: every object x rows x draws x optional outputs x distance x band shift, each draw compared with the model"""
    objs = outputs()
    dk = ("mremain", "intsfh", "mtol", "b50", "b300", "b1000", "metallicity")

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        nb, nt = len(m.responses), m.t.n
        n = ch.pick("rows", (0, 1, 2, 3))
        scalar, n = n == 0, max(n, 1)
        mc = ch.pick("mc", (1, 2, 3, 7))
        rec, kco = ch.flag("reconstruct"), ch.flag("kcorrect")
        dist = ch.flag("distance")
        bs = ch.pick("band shift", (0., 0.1))
        z = np.float32([0.21, 0.4, 0.83][:n])
        d = np.float32([77., 3000., 0.4][:n]) if dist else None
        f = np.fromfunction(lambda a, b, c: 1. + a + 0.3 * b + 0.17 * c, (n, nb, mc))
        f[0, 0, -1] = -0.3
        f = np.float32(f * 1e-9)
        w = np.float32(np.fromfunction(lambda a, b: 1e18 * ((a + 2 * b) % 3), (n, nb)))
        c = np.fromfunction(lambda a, b, e: 0.5 + (a * 5 + b * 3 + e * 7) % 4, (n, nt, mc))
        c[n - 1, :, mc // 2] = 0.
        c = np.float32(c)
        sq = (lambda x: x[0]) if scalar else (lambda x: x)
        what = "object %d rows=%s mc=%d bs=%s" % (i, "scalar" if scalar else n, mc, bs)
        r = k.absmag_mc(redshift=sq(z), maggies_mc=sq(f), ivar=sq(w), coeffs_mc=sq(c), band_shift=bs,
                        distance=None if d is None else sq(d), reconstruct=rec, kcorrect=kco)
        names = ["absmag"] + (["reconstruct"] if rec else []) + (["kcorrect"] if kco else [])
        if len(names) == 1:
            need(isinstance(r, np.ndarray), what, "returned", type(r))
            r = (r,)
        need(isinstance(r, tuple) and len(r) == len(names), what, "returned", type(r))
        dd = k.derived_mc(redshift=sq(z), coeffs_mc=sq(c), band_shift=bs, distance=None if d is None else sq(d))
        need(sorted(dd) == sorted(dk), what, "keys", sorted(dd))
        lead = () if scalar else (n,)
        for q, x in zip(names, r):
            need(np.shape(x) == lead + (len(m.out), mc), what, q, "shape", np.shape(x))
        for q in dk:
            need(np.shape(dd[q]) == lead + ((len(m.out), mc) if q == "mtol" else (mc,)), what, q, "shape", np.shape(dd[q]))
        for a in range(n):
            for e in range(mc):
                dz = None if d is None else float(d[a])
                want = m.absmag(z[a], f[a, :, e], w[a], c[a, :, e], bs, dz)
                for q, x in zip(names, r):
                    g = np.asarray(x if scalar else x[a])[..., e]
                    need(np.array_equal(g == -9999., want[q] == -9999.) and kc.mclose(g, want[q]), what,
                         "row %d draw %d %s = %s, should be %s" % (a, e, q, g, want[q]))
                wd = m.derived(z[a], c[a, :, e], bs, dz)
                for q in dk:
                    g = np.asarray(dd[q] if scalar else dd[q][a])[..., e]
                    need(kc.close(g, wd[q], 1e-4), what, "row %d draw %d %s = %s, should be %s" % (a, e, q, g, wd[q]))
                ch.checked(2)
        return "%d %s %d %s %s" % (i, n, mc, names, dist)
    return body
