"""C01 template fits are the optimal nonnegative weighted fit"""
import numpy as np

from mc import kc, ref
from mc.common import build as make, positions
from mc.engine import Check, Violation, need

kcorrect = kc.load()

check = Check("C01", assumptions=[
    "Fluxes and weights are taken from a small alphabet of patterns and scales; optimality is decided "
    "for each by the Karush-Kuhn-Tucker conditions (necessary and sufficient, the problem is convex) "
    "against templates' fluxes recomputed in float64 from the data files.",
    "Relative tolerance 2e-5 (single-precision matrices).",
], rule="Executions are all combinations of the alphabets of each harness.")

TOL = 2e-5


def judge(m, z, maggies, ivar, x, what=""):
    """Is x the optimal fit?"""
    x = np.asarray(x, dtype=np.float64)
    need(x.shape == (m.t.n,), what, "coefficients have shape", x.shape)
    need(np.all(np.isfinite(x)), what, "coefficients not finite:", x)
    need(np.all(x >= 0), what, "negative coefficients:", x)
    A = m.A(float(np.float32(z)))
    if A is None:
        need(np.all(x == 0), what, "redshift", z, "out of range but coefficients", x)
        return "out"
    maggies = np.float32(maggies).astype(np.float64)
    ivar = np.float32(ivar).astype(np.float64)
    use = ivar > 0
    s = np.sqrt(ivar[use])
    gap, neg = ref.kkt_gap(A[use] * s[:, None], maggies[use] * s, x)
    if gap > TOL:
        opt = ref.nnls_brute(A[use] * s[:, None], maggies[use] * s)[1] if m.t.n <= 6 else "?"
        raise Violation("%s fit is not optimal: z=%r maggies=%s ivar=%s coeffs=%s gap=%.3g optimum=%s"
                        % (what, z, maggies, ivar, x, gap, opt))
    return "fit%s" % "".join("1" if v > 0 else "0" for v in x[:6])


CONFIGS = [
    # bands, templates, range, nredshift
    (("b2", "b3", "b4"), 3, (0., 1.), 11),
    (("b3",), 1, (0., 1.), 5),
    (("b4", "b2"), 5, (0.013, 0.77), 8),
    (("b1", "b2", "b3", "b4", "b5"), 5, (0.1, 0.3), 7),
    (("b2", "b3", "b4"), 5, (0., 2.), 2),
    (("b3",), 4, (0., 0.7), 6),
    (("b5", "b1", "b3"), 1, (0., 1.1), 23),
    (("b1", "b2", "b4", "b5"), 3, (0., 0.9), 9, 5),    # templates of very different normalisation
    (("b3", "b2"), 4, (0., 0.9), 9, 9),
    (("b2", "b3", "b4"), 4, (0., 0.9), 9, 0, (0, 2)),    # templates without flux
    (("b3", "b4", "b1"), 3, (0., 0.9), 9, 0, (1,)),
]


def build(cfg, interpolate=False):
    tags, nt, rng, n = cfg[:4]
    return make(tags, nt=nt, rng=rng, n=n, interpolate=interpolate, tfile=kc.template_file(nt, uneven=(cfg + (0,))[4], blank=(cfg + (0, None))[5] if len(cfg) > 5 else None))


@check.harness()
def weight_patterns(tier):
    """3 bands, 3 templates: every pattern of flux (0, +, larger +, -) and inverse variance
    (1, 0, large, small, tiny) over bands at several redshift positions"""
    k, m = build(CONFIGS[0])
    zs = positions(0., 1., 11)
    zs = [zs[i] for i in ((0, 2, 3) if tier == "quick" else range(len(zs)))]
    fl = (1., 3., 0., -1.)
    iv = (1., 0., 25., 1e-3)

    def body(ch):
        z = ch.pick("redshift", zs)
        f = [ch.pick("flux %d" % i, fl) for i in range(3)]
        w = [ch.pick("ivar %d" % i, iv) for i in range(3)]
        x = k.fit_coeffs(redshift=z[1], maggies=np.float32(f), ivar=np.float32(w))
        ch.checked()
        return z[0] + " " + judge(m, z[1], f, w, x)
    return body


@check.harness()
def configurations(tier):
    """every configuration (1 to 5 bands, 1 to 5 templates, several ranges and grids, end points included)
    x every redshift position x flux shape x zero-weight pattern x overall scale of fluxes and weights,
    with the scaled fit compared with the unscaled one, and the flux of unweighted bands varied"""
    objs = [build(c, interpolate=i) for c in CONFIGS for i in (False, True)]
    labels = ["%s %dt %s n=%d%s" % (",".join(c[0]), c[1], c[2], c[3], i) for c in CONFIGS for i in ("", " interpolated")]
    nd = 1e30

    def body(ch):
        c = ch.pick("configuration", range(len(objs)))
        k, m = objs[c]
        nb = len(m.responses)
        name, z = ch.pick("redshift", positions(m.lo, m.hi, m.n))
        shape = ch.pick("flux shape", ("flat", "red", "blue", "one template", "mixture", "faint blue -", "zero"))
        a = m.A(min(max(float(z), m.lo), m.hi))
        base = dict(flat=np.ones(nb), red=1. + np.arange(nb), blue=1. / (1. + np.arange(nb)) ** 2,
                    zero=np.zeros(nb), mixture=a.dot(1. + np.arange(m.t.n) % 2))
        base["one template"] = a[:, -1]
        base["faint blue -"] = np.array([-0.2] + [1.] * (nb - 1))
        f = base[shape]
        drop = ch.pick("weights", ["all"] + list(range(nb)) + ["only first", "none", "uneven"])
        w = np.ones(nb)
        if drop == "only first":
            w[1:] = 0
        elif drop == "none":
            w[:] = 0
        elif drop == "uneven":
            w = 10. ** (np.arange(nb) % 4 * 2. - 3.)
        elif drop != "all":
            w[drop] = 0
        scale = ch.pick("scale", (1., 1e-9, 1e-3, 1e6, 1e-15, 1e9))
        f32, w32 = np.float32(f * scale), np.float32(w / scale**2)
        x = np.asarray(k.fit_coeffs(redshift=z, maggies=f32, ivar=w32), dtype=np.float64)
        r = judge(m, z, f32, w32, x, labels[c])
        ch.checked()
        if scale != 1.:
            x1 = np.asarray(k.fit_coeffs(redshift=z, maggies=np.float32(f), ivar=np.float32(w)), dtype=np.float64)
            if nb >= m.t.n and drop in ("all", "uneven"):
                a0 = np.linalg.norm(a * np.sqrt(w)[:, None], axis=0)       # compare what each template contributes
                need(np.allclose(x * a0, x1 * scale * a0, rtol=2e-3, atol=2e-3 * np.abs(x * a0).max()),
                     "scaling the fluxes by", scale, "gives", x, "not", x1 * scale)
            elif r != "out":
                y, y1 = m.A(float(z)).dot(x)[w > 0], scale * m.A(float(z)).dot(x1)[w > 0]
                need(np.allclose(y, y1, rtol=1e-4, atol=1e-4 * np.abs(y1).max() if len(y1) else 0.),
                     "scaling the fluxes by", scale, "changes the fit's fluxes from", y1, "to", y)
            ch.checked()
        if np.any(w == 0):
            for junk in (nd, -nd, 0.):
                g32 = f32.copy()
                g32[w == 0] = junk
                xj = k.fit_coeffs(redshift=z, maggies=g32, ivar=w32)
                need(np.array_equal(np.float32(xj), np.float32(x)), "flux", junk, "in bands without weight changes the fit",
                     x, "to", xj)
                ch.checked()
        return "%s %s" % (c, r)
    return body


@check.harness()
def exact(tier):
    """fluxes that a nonnegative combination of the templates gives exactly, with weights that differ by up to 16 decades:
    every band must be met, however small its weight"""
    cfgs = [(("b2", "b4"), 2, (0., 0.9), 9), (("b1", "b3", "b5"), 2, (0., 0.9), 9), (("b1", "b3", "b5"), 3, (0., 0.9), 9)]
    objs = [build(c, interpolate=i) for c in cfgs for i in (False, True)]

    def body(ch):
        c = ch.pick("configuration", range(len(objs)))
        k, m = objs[c]
        nb = len(m.responses)
        z = ch.pick("redshift", [np.float32(v) for v in (0., 0.1125, 0.3, 0.47, 0.9)])
        x0 = np.array([ch.pick("coefficient %d" % j, (1., 0.2, 5.)) for j in range(m.t.n)])
        w = np.array([ch.pick("weight %d" % i, (1., 1e-8, 1e-14) if nb < 3 or m.t.n < 3 else (1., 1e-4, 1e-8)) for i in range(nb)])
        s = ch.pick("scale", (1., 1e-9))
        A = m.A(float(z))
        f = A.dot(x0) * s
        x = np.asarray(k.fit_coeffs(redshift=z, maggies=np.float32(f), ivar=np.float32(w / s**2)), dtype=np.float64)
        y = A.dot(x)
        ch.checked()
        need(np.all(np.abs(y - f) <= 2e-3 * f), "z=%s weights=%s fluxes=%s fitted as %s" % (z, w, f, y))
        return "%s %s" % (c, w)
    return body


@check.harness()
def all_redshifts(tier):
    """fits at every grid point, between every two neighbours and just beside every grid point of several grids"""
    grids = [((0., 1.), 11), ((0., 2.), 50), ((0.013, 0.77), 8), ((0.1, 0.3), 7), ((1e-4, 3.7), 40)]
    if tier == "thorough":
        grids += [((0., 1.), 101), ((0.5, 0.9), 130), ((0.003, 1.9), 333), ((0., 0.33), 60), ((0.07, 0.0701), 5)]
    objs = [build((("b1", "b3", "b4", "b5"), 4, r, n)) for r, n in grids]

    def body(ch):
        g = ch.pick("grid", range(len(grids)))
        k, m = objs[g]
        i = ch.pick("cell", range(m.n))
        off = ch.pick("offset", (0., 0.5, 1e-3, -1e-3, "next", "prev"))
        d = (m.hi - m.lo) / (m.n - 1)
        z = np.float32(m.grid[i])
        z = np.nextafter(z, np.float32(9)) if off == "next" else np.nextafter(z, np.float32(-9)) if off == "prev" \
            else np.float32(m.grid[i] + off * d)
        if i == m.n - 1 and off == 0.:
            z = np.float32(grids[g][0][1])
        if i == 0 and off == 0.:
            z = np.float32(grids[g][0][0])
        out = []
        for f in ((1., 1., 1., 1.), (1., 4., 2., 5.), (0.3, -1., 2., 0.1)):
            w = np.float32((4., 1., 2., 1.))
            x = k.fit_coeffs(redshift=z, maggies=np.float32(f), ivar=w)
            out.append(judge(m, z, f, w, x))
            ch.checked()
        return "%d %s" % (g, out)
    return body


@check.harness()
def default_templates(tier):
    """the shipped templates with the SDSS and the 10-band GALEX-SDSS-2MASS bands: every zero-weight
    subset of 5 bands, several spectra, redshift positions and flux scales"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    tt = kcorrect.template.Template(filename=ref.DEFAULT_TEMPLATES)
    k = kcorrect.kcorrect.Kcorrect(responses=sd, templates=tt, redshift_range=[0., 0.6], nredshift=4)
    m = ref.Model(ref.Templates(ref.DEFAULT_TEMPLATES), sd, lo=0., hi=0.6, n=4)
    zs = [np.float32(v) for v in (0., 0.6, 0.17, 0.4, 0.59, 0.61)]
    seds = [(1., 4.78, 10.96, 14.45, 19.05), (1., 1., 1., 1., 1.), (3., 2., 1.2, 1., 0.9), (1., 1., -1., 1., 1.)]

    def body(ch):
        z = ch.pick("redshift", zs)
        f = np.array(ch.pick("spectrum", seds))
        s = ch.pick("scale", (1., 1e-9, 1e-8))
        w = np.array([float(ch.pick("weight %d" % i, (1, 0))) for i in range(5)]) * np.array((1., 90., 100., 100., 40.))
        x = k.fit_coeffs(redshift=z, maggies=np.float32(f * s), ivar=np.float32(w / s**2))
        ch.checked()
        return judge(m, z, f * s, w / s**2, x)
    return body
