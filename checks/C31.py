"""C31 missing values stay missing and stay where they are"""
import numpy as np

from mc import kc
from mc.common import build
from mc.engine import Check, need

kc.patch_noise()
kcorrect = kc.load()
U = kcorrect.utils
check = Check("C31", assumptions=["Values compared to 1e-5 with those of the same input without missing values.",
                                  "Templates and coefficients are finite; masked arrays are not claimed."],
              rule="Executions are all combinations of the alphabets of each harness.")

NAN, INF = np.nan, np.inf
GONE = (NAN, INF, -INF)
SDSS = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
# what is missing of a band: flux, inverse variance
STATES = [("good", None, None), ("no weight", None, 0.), ("flux nan", NAN, None), ("flux nan, no weight", NAN, 0.), ("flux inf", INF, None),
          ("flux -inf", -INF, None), ("ivar nan", None, NAN), ("ivar inf", None, INF), ("ivar -inf", None, -INF), ("ivar negative", None, -1e20),
          ("both nan", NAN, NAN), ("flux inf, no weight", INF, 0.)]
SPOILT = {s[0] for s in STATES} - {"good", "no weight"}


def attempt(fn):
    with np.errstate(all="ignore"):
        try:
            return fn(), None
        except (ValueError, ZeroDivisionError, FloatingPointError, OverflowError, np.linalg.LinAlgError, RuntimeError) as e:
            return None, e


def f64(x):
    return np.asarray(x, dtype=np.float64)


def close(a, b):
    a, b = f64(a), f64(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-30, equal_nan=True)


def data(nb, n=1):
    i = np.arange(n * nb).reshape(n, nb)
    return (1e-9 * (1. + (i * 5) % 7 + 0.1 * i)).astype(np.float32), (1e19 * (1. + i % 3)).astype(np.float32)


def nothing(c):
    return not np.any(np.isfinite(c) & (f64(c) != 0.))


def objects():
    return [("3 bands", build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6)),
            ("3 in 4 out", build(("b2", "b3", "b4"), ("b5", "b3", "b2", "b3"), ("b4", "b2", "b2", "b3"), nt=4, rng=(0., 1.), n=6)),
            ("one band", build(("b3",), nt=1, rng=(0., 1.), n=6)),
            ("SDSS", build(SDSS, nt=2, rng=(0., 1.), n=4, cls=kcorrect.kcorrect.KcorrectSDSS))]


@check.harness()
def fits(tier):
    """every pattern of 12 states (flux or inverse variance NaN, infinite, negative weight, no weight) over 3 bands, alone, as one row, and as the
    first, middle or last of 3 objects, with and without Monte Carlo: an error or no fit for the object, and nothing changed for the others"""
    objs = objects()

    def body(ch):
        name, (k, m) = ch.pick("object", objs if tier != "quick" else objs[:2])
        nb = len(m.responses)
        st = [ch.pick("band %d" % b, STATES) for b in range(min(nb, 3))]
        place = ch.pick("place", ("alone", "one row", 0, 1, 2))
        mc = ch.pick("mc", (0, 2))
        f, w = data(nb, 3)
        z = np.float32([0.2, 0.5, 0.7])
        row = place if isinstance(place, int) else 1
        for b, s in enumerate(st):
            f[row, b] = f[row, b] if s[1] is None else s[1]
            w[row, b] = w[row, b] if s[2] is None else s[2]
        sel = dict(alone=1).get(place, slice(1, 2) if place == "one row" else slice(None))
        kc.NOISE.reset(lambda i: (i * 0.37) % 3. - 1.5)
        got, err = attempt(lambda: k.fit_coeffs(redshift=z[sel], maggies=f[sel], ivar=w[sel], mc=mc))
        spoilt = any(s[0] in SPOILT for s in st)
        ch.checked()
        if err is not None:
            need(spoilt, "nothing is missing, but the fit raised", lambda: repr(err))
            return "raised"
        got = got if mc else (got,)
        c = [np.asarray(x).reshape((-1,) + np.shape(x)[(0 if place == "alone" else 1):]) if place != "alone" else np.asarray(x)[None]
             for x in got[:2 if mc else 1]]
        if spoilt:
            mine = 0 if len(c[0]) == 1 else row
            need(all(nothing(x[mine]) for x in c), "%s: %s fitted as" % (name, [s[0] for s in st]), [x[mine] for x in c])
        for i in range(len(c[0])):
            if len(c[0]) == 3 and (i != row or not spoilt):
                need(close(c[0][i], k.fit_coeffs(redshift=z[i], maggies=f[i], ivar=w[i])), "row", i, "changed to", c[0][i])
        return "no fit"
    return body


@check.harness()
def absolute_magnitudes(tier):
    """every such pattern over 3 bands of one object, alone or in a catalogue, several maps of bands, with and without distance and AB
    correction: -9999 for every band without flux or weight, the other bands and objects as without missing values"""
    objs = objects()

    def body(ch):
        name, (k, m) = ch.pick("object", objs)
        nb, nt = len(m.responses), m.t.n
        st = [ch.pick("band %d" % b, STATES) for b in range(min(nb, 3))]
        place = ch.pick("place", ("alone", "one row", 0, 2))
        dist = ch.pick("distance", (None, 321.))
        f, w = data(nb, 3)
        z, c = np.float32([0.2, 0.5, 0.7]), np.float32(1. + np.arange(3 * nt).reshape(3, nt) % 5)
        f0, w0 = f.copy(), w.copy()
        row = place if isinstance(place, int) else 1
        for b, s in enumerate(st):
            f[row, b] = f[row, b] if s[1] is None else s[1]
            w[row, b] = w[row, b] if s[2] is None else s[2]
            # the same object with what is missing marked by its weight
            if s[0] != "good":
                w0[row, b] = 0.
        sel = dict(alone=1).get(place, slice(1, 2) if place == "one row" else slice(None))
        kw = dict(redshift=z[sel], coeffs=c[sel], reconstruct=True, limit=True, kcorrect=True)
        if dist:
            kw["distance"] = np.full(np.shape(z[sel]), dist, dtype=np.float32) if place != "alone" else np.float32(dist)
        with np.errstate(all="ignore"):
            a, r, l, kk = k.absmag(maggies=f[sel], ivar=w[sel], **kw)
            a0, r0, l0, k0 = k.absmag(maggies=f0[sel], ivar=w0[sel], **kw)
        ch.checked()
        need(close(r, r0), "reconstructed magnitudes became", r, "were", r0)
        need(close(kk, k0), "K-corrections became", kk, "were", k0)
        one = 0 if place in ("alone", "one row") else row
        A, A0, L, L0 = (f64(x).reshape(-1, len(m.imap)) for x in (a, a0, l, l0))
        for i in range(len(A)):
            for o, b in enumerate(m.imap):
                s = st[b] if i == one and b < len(st) else STATES[0]
                what = "%s: object %d output band %d (%s)" % (name, i, o, s[0])
                if s[0] in ("good", "no weight") or s[0] in ("flux nan", "flux nan, no weight", "both nan", "ivar nan", "ivar -inf", "flux -inf",
                                                             "ivar negative", "flux inf, no weight"):
                    need(close(A[i, o], A0[i, o]), what, "has absolute magnitude", A[i, o], "should have", A0[i, o])
                elif s[0] == "flux inf":
                    need(A[i, o] == -9999. or not np.isfinite(A[i, o]), what, "has absolute magnitude", A[i, o])
                if s[0] in ("good", "no weight"):
                    need(close(L[i, o], L0[i, o]), what, "has limit", L[i, o], "should have", L0[i, o])
                elif s[2] is not None:
                    need(L[i, o] == -9999. or not np.isfinite(L[i, o]), what, "has limit", L[i, o])
        return "%s" % [s[0] for s in st]
    return body


CALLS = ("reconstruct", "reconstruct_out", "kcorrect", "absmag", "derived", "derived_mc", "absmag_mc")


@check.harness()
def catalogues(tier):
    """catalogues of 1 to 3 objects, each with its redshift, distance, fluxes or coefficients NaN or infinite, or nothing missing, through each
    of 7 operations and band shifts: an error, or the other objects as without it and nothing that looks like a result for that one"""
    objs = objects()
    ways = [None] + [(q, v) for q in ("redshift", "distance", "maggies", "ivar", "coeffs") for v in GONE]

    def body(ch):
        name, (k, m) = ch.pick("object", objs[:3] if tier == "quick" else objs)
        op = ch.pick("call", CALLS)
        nb, nt = len(m.responses), m.t.n
        n = ch.pick("rows", (1, 2, 3) if tier != "quick" else (1, 2))
        rows = [ch.pick("row %d" % i, ways) for i in range(n)]
        bs = ch.pick("band shift", (0., 0.1))
        f, w = data(nb, n)
        a = dict(redshift=np.float32([0.2, 0.5, 0.7][:n]), coeffs=np.float32(1. + np.arange(n * nt).reshape(n, nt) % 5),
                 distance=np.float32([100., 3000., 20.][:n]), maggies=f, ivar=w)
        clean = {q: v.copy() for q, v in a.items()}
        for i, r in enumerate(rows):
            if r is not None:
                a[r[0]][i] = r[1]

        def call(a):
            kw = dict(redshift=a["redshift"], band_shift=bs)
            if op in ("absmag", "derived", "derived_mc", "absmag_mc") and any(r and r[0] == "distance" for r in rows):
                kw["distance"] = a["distance"]
            if op.endswith("_mc"):
                kw["coeffs_mc"] = np.stack([clean["coeffs"], a["coeffs"]], axis=-1)
            else:
                kw["coeffs"] = a["coeffs"]
            if op == "absmag":
                kw.update(maggies=a["maggies"], ivar=a["ivar"], reconstruct=True, limit=True, kcorrect=True)
            elif op == "absmag_mc":
                kw.update(maggies_mc=np.stack([a["maggies"], clean["maggies"]], axis=-1), ivar=a["ivar"], reconstruct=True, kcorrect=True)
            r = getattr(k, op)(**kw)
            return r if isinstance(r, dict) else dict(enumerate(r if isinstance(r, tuple) else (r,)))
        got, err = attempt(lambda: call(a))
        ch.checked()
        if err is not None:
            need(any(r is not None and r[0] in ("redshift", "distance") for r in rows), "nothing is missing, but the call raised",
                 lambda: repr(err))
            return "raised"
        want = call(clean)
        need(set(got) == set(want), "gives", sorted(got))
        for q in want:
            g, x = f64(got[q]), f64(want[q])
            need(g.shape == x.shape and len(g) == n, q, "has shape", g.shape)
            for i, r in enumerate(rows):
                used = r is not None and (r[0] in ("redshift", "coeffs") or r[0] in ("maggies", "ivar") and op.startswith("absmag") or
                                          r[0] == "distance" and (op.startswith(("absmag", "derived"))))
                if not used:
                    need(close(g[i], x[i]), "%s %s %s: object %d %s is" % (name, op, rows, i, q), g[i], "should be", x[i])
                    continue
                if r[0] in ("redshift", "distance") and not same_anyway(op, q, r[0], any(
                        x and x[0] == "distance" for x in rows)):
                    need(gone(g[i]), "%s %s %s: object %d without %s has %s" % (name, op, rows, i, r[0], q), g[i])
                # of a Monte Carlo object with one bad draw, the other draw
                if op.endswith("_mc") and r[0] in ("coeffs", "maggies"):
                    good = 0 if r[0] == "coeffs" else 1
                    need(close(g[i][..., good], x[i][..., good]), "%s %s %s: object %d %s of the other draw is" % (name, op, rows, i, q),
                         g[i][..., good], "should be", x[i][..., good])
        return "%s %s" % (name, op)
    return body


def gone(x):
    return not np.any(np.isfinite(x) & (f64(x) != 0.) & (f64(x) != -9999.))


def same_anyway(op, q, arg, distances):
    """Quantities that need not depend on the argument"""
    if op.startswith("derived"):
        return arg == "redshift" and distances or q in ("b50", "b300", "b1000", "metallicity", "mtol")
    if op.startswith("absmag"):
        # reconstructed magnitudes with distances given, K-corrections with another distance
        return q == 1 if arg == "redshift" and distances else arg == "distance" and q == (3 if op == "absmag" else 2)
    return False


@check.harness()
def conversions(tier):
    """error floors, AB correction, asinh magnitudes and flux densities with every pattern of {good, NaN, inf, -inf} of values, errors and
    extinctions over 2 of 5 bands, one object or 3: every other value is as without it, and none of these looks like a result"""
    kinds = (None,) + GONE
    names = SDSS

    def spoil(ch, x, label, bands, row):
        y, where = x.copy(), np.zeros(x.shape, dtype=bool)
        for b in bands:
            v = ch.pick("%s %d" % (label, b), kinds)
            if v is not None:
                y[row + (b,)] = v
                where[row + (b,)] = True
        return y, where

    def judge(what, got, want, touched, missing):
        g, x = f64(got), f64(want)
        need(g.shape == x.shape, what, "has shape", g.shape)
        need(close(g[~touched], x[~touched]), what, "where nothing is missing is", g, "should be", x)
        need(gone(g[missing]), what, "where something is missing is", g[missing])

    def body(ch):
        op = ch.pick("conversion", ("error_floor", "sdss_ab_correct", "asinh", "maggies2flambda", "to_ab"))
        row = ch.pick("row", ((), (0,), (2,)))
        bands = ch.pick("bands", ((0, 3), (4, 1)) if tier != "quick" else ((0, 3),))
        f, w = data(5, 3)
        f, w = (f[0], w[0]) if row == () else (f, w)
        none = np.zeros(f.shape, dtype=bool)
        ch.checked()
        with np.errstate(all="ignore"):
            if op == "asinh":
                mag, err = np.float32(17. + f * 1e8), np.float32(0.01 + 1e-21 * w)
                ext = np.float32(0.1 + 1e7 * f)
                m2, tm = spoil(ch, mag, "mag", bands, row)
                e2, te = spoil(ch, err, "err", bands[:1], row)
                x2, tx = spoil(ch, ext, "ext", bands[:1], row)
                want = U.sdss_asinh_to_maggies(mag=mag, mag_err=err, extinction=ext)
                got = U.sdss_asinh_to_maggies(mag=m2, mag_err=e2, extinction=x2)
                judge("flux", got[0], want[0], tm | tx, tm | (tx & (x2 != -INF)))
                judge("inverse variance", got[1], want[1], tm | te | tx, tm | te | tx)
                alone = U.sdss_asinh_to_maggies(mag=m2, extinction=x2)
                judge("flux alone", alone, want[0], tm | tx, tm | (tx & (x2 != -INF)))
                return op
            f2, tf = spoil(ch, f, "flux", bands, row)
            w2, tw = spoil(ch, w, "ivar", bands, row)
            if op == "error_floor":
                want = U.error_floor(floor=[0.05, 1e-9, 0.3, 0.5, 0.1], maggies=f, ivar=w)
                got = U.error_floor(floor=[0.05, 1e-9, 0.3, 0.5, 0.1], maggies=f2, ivar=w2)
                judge("floored inverse variance", got, want, tf | tw, none)
                # floors never raise an inverse variance nor make one up
                ok = tf & ~tw
                need(np.all((f64(got)[ok] <= f64(w)[ok] * (1. + 1e-6)) & (f64(got)[ok] >= 0.)), "inverse variance of missing fluxes became",
                     lambda: f64(got)[ok])
                nan = tw & ~(w2 > 0)
                need(gone(f64(got)[nan]), "missing inverse variance became", lambda: f64(got)[nan])
            elif op == "maggies2flambda":
                want = U.maggies2flambda(maggies=f, ivar=w, responses=names)
                got = U.maggies2flambda(maggies=f2, ivar=w2, responses=names)
                need(close(got[0], want[0]), "wavelengths became", got[0])
                judge("flux density", got[1], want[1], tf, tf)
                judge("inverse variance", got[2], want[2], tw, tw)
            else:
                fn = U.sdss_ab_correct if op == "sdss_ab_correct" else sdss().to_ab
                want, got = fn(maggies=f, ivar=w), fn(maggies=f2, ivar=w2)
                judge("flux", got[0], want[0], tf, tf)
                judge("inverse variance", got[1], want[1], tw, tw)
        return op
    return body


_sdss = []


def sdss():
    if not _sdss:
        _sdss.append(build(SDSS, nt=2, rng=(0., 1.), n=3, cls=kcorrect.kcorrect.KcorrectSDSS)[0])
    return _sdss[0]


@check.harness()
def spectra(tier):
    """bandpass averages of 1 to 4 spectra, each good or with a NaN or infinite sample inside or outside of the band, given as arrays or as
    a redshifted set: one with such a sample inside has no average, and no other spectrum gets another average than without it (it may
    have none: the interpolation is of all spectra at once)"""
    w = np.linspace(2000., 14000., 97)
    f = kcorrect.response.ResponseDict()
    names = kc.bands("b2", "b4")
    for x in names:
        f.load_response(x)

    def body(ch):
        r = f[ch.pick("band", names)]
        n = ch.pick("spectra", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
        z = ch.pick("redshift", (0., 0.3))
        lo, hi = r.wave[r.response > 0.3 * r.response.max()][[0, -1]]
        inside = np.where((w * (1. + z) > lo) & (w * (1. + z) < hi))[0]
        where = dict(inside=inside[len(inside) // 2], blue=2, red=len(w) - 3)
        flux = np.float32([np.linspace(1. + i, 3. - 0.2 * i, len(w)) for i in range(n)])
        bad = flux.copy()
        spots = [ch.pick("spectrum %d" % i, (None, ("inside", NAN), ("inside", INF), ("blue", NAN), ("red", INF))) for i in range(n)]
        for i, s in enumerate(spots):
            if s:
                bad[i, where[s[0]]] = s[1]
        as_sed = ch.flag("as a set of spectra")
        ch.checked()
        with np.errstate(all="ignore"):
            def average(x):
                if as_sed:
                    s = kcorrect.template.SED(wave=np.float32(w), flux=x.copy())
                    s.set_redshift(z)
                    return np.atleast_1d(r.project(sed=s))
                return np.atleast_1d(r.project(wave=np.float32(w * (1. + z)), flux=(x / np.float32(1. + z)) if n > 1 else x[0] / np.float32(1. + z)))
            want, got = average(flux), average(bad)
        need(got.shape == want.shape, "shape", got.shape)
        for i, s in enumerate(spots):
            if s is None or s[0] != "inside":
                need(s is not None or close(got[i], want[i]) or any(spots) and not np.isfinite(got[i]), "spectrum %d (%s) has average" % (i, spots), got[i], "should have", want[i])
            else:
                need(not np.isfinite(got[i]), "spectrum %d (%s) has average" % (i, spots), got[i])
        return "%s" % (spots,)
    return body
