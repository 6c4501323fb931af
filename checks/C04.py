"""C04 reconstructed fluxes are those of the fitted spectrum"""
import itertools

import numpy as np

from mc import kc, ref
from mc.common import build, positions
from mc.engine import Check, Violation, need

kcorrect = kc.load()
check = Check("C04", assumptions=[
    "Fluxes are compared with templates reprojected in float64 to 2e-5 (relative).",
    "A redshift and nonzero band shift within 1e-6 of an end of the range may be accepted or rejected."],
    rule="Executions are all combinations of the alphabets of each harness.")

CONFIGS = [
    (dict(tags=("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=11)),
    (dict(tags=("b3",), nt=1, rng=(0., 1.), n=5)),
    (dict(tags=("b4", "b2"), out=("b5", "b3", "b1"), rmap=("b4", "b2", "b2"), nt=5, rng=(0.013, 0.77), n=8)),
    (dict(tags=("b1", "b2", "b3", "b4", "b5"), out=("b3",), rmap=("b3",), nt=5, rng=(0.1, 0.3), n=7)),
    (dict(tags=("b2", "b3", "b4"), nt=4, rng=(0., 2.), n=2)),
    (dict(tags=("b3", "b3"), nt=2, rng=(0., 0.7), n=6, interpolate=True)),
    (dict(tags=("b1", "b3"), out=("b4",), rmap=("b3",), nt=3, rng=(0., 0.9), n=5, interpolate=True, spectra=True)),
]


def judge(k, m, z, c, bs, which, got=None, what="", array=False):
    f = k.reconstruct if which == "in" else k.reconstruct_out
    want = m.reconstruct(z, c, bs, which)
    shift = float(np.float32(z)) + bs * (1. + float(np.float32(z)))
    edge = bs != 0. and min(abs(shift - m.lo), abs(shift - m.hi)) < 1e-6
    zz, cc = (np.float32([z]), np.float32([c])) if array else (np.float32(z), np.float32(c))
    try:
        got = f(redshift=zz, coeffs=cc, band_shift=bs)
    except ValueError:
        need(edge or want is None, what, "ValueError for z=%r band_shift=%r within %r" % (z, bs, (m.lo, m.hi)))
        return "raised"
    if want is None and edge:
        return "edge"
    need(want is not None, what, "returned", got, "for z=%r band_shift=%r out of %r" % (z, bs, (m.lo, m.hi)))
    got = np.asarray(got, dtype=np.float64)
    if array:
        need(got.ndim == 2 and len(got) == 1, what, "shape", got.shape)
        got = got[0]
    if edge and want is None:
        return "edge"
    need(got.shape == want.shape, what, "shape", got.shape)
    need(kc.close(got, want, 3e-5, 1e-7 * np.abs(want).max() if len(want) else 0.), what,
         "z=%r band_shift=%r coeffs=%s %s: got %s, should be %s" % (z, bs, c, which, got, want))
    return "ok"


@check.harness()
def redshift_band_shift(tier):
    """every redshift position x band shift x coefficient pattern (one-hot, zero, mixed, large, tiny) x input or output bands x
    scalar or one-row, for seven objects (one with plain spectra as templates)"""
    objs = [build(**c) for c in CONFIGS]

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        name, z = ch.pick("redshift", positions(m.lo, m.hi, m.n))
        bs = ch.pick("band shift", (0., 0.1, 0.05, 0.3, 1., -0.05, 1e-3, "to hi", "to lo", "beyond hi"))
        if bs == "to hi":
            bs = (m.hi - 1e-4 - float(z)) / (1. + float(z))
        elif bs == "to lo":
            bs = (m.lo + 1e-4 - float(z)) / (1. + float(z))
        elif bs == "beyond hi":
            bs = (m.hi + 1e-4 - float(z)) / (1. + float(z))
        which = ch.pick("bands", ("in", "out"))
        nt = m.t.n
        r = []
        for c in list(np.eye(nt)) + [np.zeros(nt), 1. + np.arange(nt), 1e10 * (1. + np.arange(nt)[::-1]), 1e-12 * np.ones(nt), -1. - np.arange(nt),
                  np.where(np.arange(nt) == 0, 4., -0.5), 1e-26 * np.ones(nt)]:
            for array in (False, True):
                r.append(judge(k, m, z, c, bs, which, what="object %d" % i, array=array))
                ch.checked()
        need(len(set(r)) == 1, "outcome depends on the coefficients", r)
        return "%d %s %s %s" % (i, name, which, r[0])
    return body


@check.harness()
def whole_grid(tier):
    """every grid point and neighbourhood of several grids, for fluxes in all bands of all templates"""
    cfg = [dict(tags=("b1", "b3", "b5"), out=("b2",), rmap=("b3",), nt=3, rng=r, n=n) for r, n in
           (((0., 1.), 11), ((0., 2.), 40), ((0.013, 0.77), 8), ((0.1, 0.3), 7))]
    if tier == "thorough":
        cfg += [dict(tags=("b1", "b3"), nt=3, rng=r, n=n) for r, n in
                (((0., 1.), 101), ((0.5, 0.9), 130), ((0.003, 1.9), 333), ((0., 0.33), 60), ((1e-4, 3.7), 500))]
    objs = [build(**c) for c in cfg]

    def body(ch):
        g = ch.pick("grid", range(len(objs)))
        k, m = objs[g]
        i = ch.pick("cell", range(m.n))
        d = (m.hi - m.lo) / (m.n - 1)
        off = ch.pick("offset", (0., 0.5, 0.25, 1e-3, -1e-3))
        z = np.float32(m.grid[i] + off * d)
        if off == 0. and i == m.n - 1:
            z = np.float32(m.hi)
        nt = m.t.n
        r = []
        for c in list(np.eye(nt)) + [1. + np.arange(nt)]:
            for which in ("in", "out"):
                r.append(judge(k, m, z, c, 0., which, what="grid %d" % g))
                if m.lo == 0.:
                    # the same shift through the band shift alone
                    r.append(judge(k, m, 0., c, float(z), which, what="grid %d shift" % g))
                ch.checked(2)
        return "%d %s" % (g, r[0])
    return body


@check.harness()
def catalogues(tier):
    """catalogues of up to 3 rows mixing redshift positions and coefficients: each row as alone, linear in the coefficients,
    ValueError if and only if some row is out of range"""
    objs = [build(**c) for c in CONFIGS[:4]]

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        n = ch.pick("rows", (1, 2, 3))
        pos = positions(m.lo, m.hi, m.n)
        pos = [pos[j] for j in (0, 2, 3, 5, 8, 10)]
        zs = [ch.pick("z %d" % j, pos) for j in range(n)]
        bs = ch.pick("band shift", (0., 0.04))
        which = ch.pick("bands", ("in", "out"))
        nt = m.t.n
        cs = np.array([np.roll(np.arange(nt) * 1.5 + (j != 1), j) for j in range(n)])
        z32 = np.float32([z[1] for z in zs])
        want = [m.reconstruct(z, c, bs, which) for z, c in zip(z32, cs)]
        shifts = z32.astype(float) + bs * (1. + z32.astype(float))
        edge = bs != 0. and bool(np.any(np.abs(shifts - m.lo) < 1e-6) or np.any(np.abs(shifts - m.hi) < 1e-6))
        f = k.reconstruct if which == "in" else k.reconstruct_out
        try:
            got = f(redshift=z32, coeffs=np.float32(cs), band_shift=bs)
        except ValueError:
            need(edge or any(w is None for w in want), "ValueError though every row is in range:", z32, bs)
            return "raised"
        need(edge or all(w is not None for w in want), "no error though a row is out of range:", z32, bs, got)
        for j in range(n):
            if want[j] is not None:
                need(kc.close(got[j], want[j], 3e-5, 1e-7 * np.abs(want[j]).max()), "row", j, got[j], "should be", want[j])
        # linear
        sum_ = np.asarray(f(redshift=z32, coeffs=np.float32(cs * 2. + 1.), band_shift=bs), dtype=np.float64)
        one = np.asarray(f(redshift=z32, coeffs=np.float32(0. * cs + 1.), band_shift=bs), dtype=np.float64)
        need(kc.close(sum_, 2. * np.asarray(got, dtype=np.float64) + one, 3e-5), "not linear in the coefficients")
        ch.checked(n + 1)
        return "%d %d %s" % (i, n, [z[0] for z in zs])
    return body


@check.harness()
def real_grids(tier):
    """the shipped templates with SDSS and GALEX-SDSS-2MASS bands, on and off the grid, one-hot coefficients, and the
    independent statement at grid points: project the redshifted sum spectrum"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    gst = ["galex_FUV", "galex_NUV"] + sd + ["twomass_J", "twomass_H", "twomass_Ks"]
    t = ref.DEFAULT_TEMPLATES
    objs = [build(sd, ["bessell_B", "bessell_V"], ["sdss_g0", "sdss_r0"], tfile=t, rng=(0., 0.4), n=5),
            build(gst, tfile=t, rng=(0., 1.), n=3), build(sd[1:4], tfile=ref.LRG_TEMPLATES, rng=(0.05, 0.8), n=4)]

    def body(ch):
        i = ch.pick("object", range(len(objs)))
        k, m = objs[i]
        name, z = ch.pick("redshift", positions(m.lo, m.hi, m.n)[:8])
        bs = ch.pick("band shift", (0., 0.1))
        which = ch.pick("bands", ("in", "out"))
        for c in list(np.eye(m.t.n)) + [np.arange(m.t.n) + 0.5]:
            judge(k, m, z, c, bs, which, what="object %d" % i)
            ch.checked()
        # the property in words, at grid points
        if name in ("lo", "hi") and bs == 0.:
            c = np.arange(m.t.n) + 0.5
            zz = float(z)
            spec = c.dot(m.t.flux) / (1. + zz)
            want = [ref.band(b).project(m.t.wave * (1. + zz), spec)[0] for b in (m.responses if which == "in" else m.out)]
            got = (k.reconstruct if which == "in" else k.reconstruct_out)(redshift=z, coeffs=np.float32(c))
            need(kc.close(got, want, 5e-5), "sum spectrum at z=%r: got %s, should be %s" % (z, got, want))
            ch.checked()
        return "%d %s" % (i, name)
    return body
