"""C23 AB correction is applied exactly once and only where it belongs"""
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, Violation, need

kc.patch_noise()
kcorrect = kc.load()
KC = kcorrect.kcorrect
Template = kcorrect.template.Template
check = Check("C23", assumptions=[
    "The oracle is an object of the general kind (which corrects nothing) with the same bands, given fluxes and inverse variances that "
    "the check corrected itself; results agree to 2e-4 (magnitudes) and 3e-4 of the largest coefficient. Random draws are scripted.",
    "User-defined corrections take and return arrays (maggies, ivar or only maggies) and do not modify them."],
    rule="Executions are all combinations of object kinds, flags, ways of setting them, methods and argument shapes, and all sequences of calls "
         "up to the depth bound.")

SDSS = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
GST = ["galex_FUV", "galex_NUV"] + SDSS + ["twomass_J", "twomass_H", "twomass_Ks"]
FIX = np.array([10.**(-0.4 * x) for x in ref.ABFIX])


class Factors(KC.Kcorrect):
    """Large factors, different in every band"""
    def to_ab(self, maggies=None, ivar=None):
        f = np.array([1.7, 0.6, 1.3], dtype=np.float32)
        if ivar is None:
            return maggies * f
        return maggies * f, ivar / f**2


class Affine(KC.Kcorrect):
    """A correction that shows if it is applied twice, to the wrong band, or with the wrong number of objects"""
    def to_ab(self, maggies=None, ivar=None):
        f = np.array([1.2, 0.8, 1.5], dtype=np.float32)
        m = maggies[..., ::1] * f + np.float32(2e-10)
        if ivar is None:
            return m
        return m, ivar / f**2 * np.float32(0.5)


class FromSDSS(KC.KcorrectSDSS):
    """An SDSS object with another correction, which builds on the inherited one"""
    def to_ab(self, maggies=None, ivar=None):
        if ivar is None:
            return super().to_ab(maggies=maggies) * np.float32(1.4)
        m, w = super().to_ab(maggies=maggies, ivar=ivar)
        return m * np.float32(1.4), w / np.float32(1.4)**2


def c_none(m, w):
    return m, w


def c_factors(m, w):
    f = np.array([1.7, 0.6, 1.3])
    return m * f, w / f**2


def c_affine(m, w):
    f = np.array([1.2, 0.8, 1.5])
    return m * f + 2e-10, w / f**2 * 0.5


def c_sdss(m, w):
    return m * FIX, w / FIX**2


def c_fromsdss(m, w):
    return m * FIX * 1.4, w / (FIX * 1.4)**2


def c_gst(m, w):
    f = np.ones(10)
    f[2:7] = FIX
    return m * f, w / f**2


# kind: class, bands, output bands, map, default flag, correction
KINDS = dict(
    general=(KC.Kcorrect, ["b1", "b3", "b4"], None, None, False, c_none),
    SDSS=(KC.KcorrectSDSS, None, None, None, True, c_sdss),
    GST=(KC.KcorrectGST, None, None, None, False, c_gst),
    factors=(Factors, ["b1", "b3", "b4"], None, None, False, c_factors),
    affine=(Affine, ["b1", "b3", "b4"], ["b2", "b5", "b3", "b1"], ["b4", "b1", "b1", "b3"], False, c_affine),
    fromSDSS=(FromSDSS, None, ["b3", "b4"], ["sdss_g0", "sdss_u0"], True, c_fromsdss))
KINDS["SDSS out"] = (KC.KcorrectSDSS, None, ["b3", "bessell_V"], ["sdss_z0", "sdss_g0"], True, c_sdss)
KINDS["GST out"] = (KC.KcorrectGST, None, ["b3", "bessell_V", "b5"], ["sdss_r0", "galex_NUV", "twomass_J"], False, c_gst)


def full(x):
    return None if x is None else [kc.bands(b)[0] if b in kc.BANDS else b for b in x]


def bands_of(kind):
    cls, b = KINDS[kind][:2]
    return full(b) if b is not None else (GST if cls is KC.KcorrectGST else SDSS)


def make(kind, flag, cls=None):
    c, b, out, rmap, default, corr = KINDS[kind]
    kw = dict(templates=Template(filename=kc.template_file(3, 64)), redshift_range=[0., 0.8], nredshift=5)
    if cls is not None:
        kw["responses"] = bands_of(kind)
    elif b is not None:
        kw["responses"] = full(b)
    if out is not None:
        kw["responses_out"] = full(out)
        kw["responses_map"] = full(rmap)
    if flag is not None:
        kw["abcorrect"] = flag
    return (cls or c)(**kw)


def noise(i):
    return (i * 0.37) % 3. - 1.5


class Pair:
    """An object, its uncorrecting twin and data"""

    def __init__(self, kind, flag, how, twin):
        self.kind, self.flag = kind, flag
        self.on = KINDS[kind][4] if flag is None else flag
        if how == "attribute":
            self.k = make(kind, not self.on)
            self.k.abcorrect = self.on
        elif how == "number":
            self.k = make(kind, (np.bool_, int)[len(kind) % 2](self.on))
        elif how == "file":
            p = os.path.join(kc.scratch(), "c23-%d.fits" % os.getpid())
            make(kind, flag).tofits(filename=p)
            self.k = make(kind, not self.on)
            self.k.fromfits(filename=p)
            os.unlink(p)
        else:
            self.k = make(kind, flag)
        need(bool(self.k.abcorrect) == self.on, kind, "flag given as", flag, "is", self.k.abcorrect)
        self.twin = twin
        self.corr = KINDS[kind][5] if self.on else c_none
        nb = len(self.k.responses)
        i = np.arange(3 * nb).reshape(3, nb)
        # far from any fit, so that weights matter
        self.m = np.float32(1e-9 * (1. + ((i * 5) % 7) * 0.9))
        self.w = np.float32(1e19 * (0.2 + (i * 3) % 4))
        self.w[1, nb // 2] = 0.
        self.m[2, 0] = -1e-10
        self.z = np.float32([0.1, 0.33, 0.6])
        self.c = np.float32(1. + np.arange(9).reshape(3, 3) % 4)
        m, w = self.corr(np.float64(self.m), np.float64(self.w))
        self.mc, self.wc = np.float32(m), np.float32(w)
        self.d = np.float32([400., 1700., 3500.])
        self.kw = dict()

    def call(self, o, method, which, corrected):
        """Result of a method on rows: all, one row, or a scalar"""
        s = dict(all=slice(None), row=slice(1, 2), scalar=0, other=2)[which]
        m, w = (self.mc, self.wc) if corrected else (self.m, self.w)
        z, m, w, c, d = self.z[s], m[s].copy(), w[s].copy(), self.c[s], self.d[s]
        kc.NOISE.reset(noise)
        if method == "fit":
            return o.fit_coeffs(redshift=z, maggies=m, ivar=w)
        if method == "fit, mc":
            return o.fit_coeffs(redshift=z, maggies=m, ivar=w, mc=2)
        if method == "fit, mc, no weights":                 # of the first, or only, object
            w[(0,) if w.ndim == 2 else ...] = 0.
            return o.fit_coeffs(redshift=z, maggies=m, ivar=w, mc=2)
        if method == "absmag":
            return o.absmag(redshift=z, maggies=m, ivar=w, coeffs=c)
        if method == "absmag, distance":
            return o.absmag(redshift=z, maggies=m, ivar=w, coeffs=c, distance=d, band_shift=0.1)
        if method == "absmag, all":
            return o.absmag(redshift=z, maggies=m, ivar=w, coeffs=c, reconstruct=True, limit=True, kcorrect=True)
        if method == "absmag, flag off":
            return o.absmag(redshift=z, maggies=m, ivar=w, coeffs=c, limit=True, abcorrect=False)
        if method == "kcorrect":
            return o.kcorrect(redshift=z, coeffs=c)
        if method == "reconstruct":
            return o.reconstruct(redshift=z, coeffs=c)
        if method == "reconstruct_out":
            return o.reconstruct_out(redshift=z, coeffs=c)
        if method in ("derived", "derived_mc"):
            r = o.derived(redshift=z, coeffs=c) if method == "derived" else o.derived_mc(redshift=z, coeffs_mc=np.stack([c, 2 * c], axis=-1))
            return tuple(r[n] for n in sorted(r))
        if method == "absmag_mc":
            return o.absmag_mc(redshift=z, maggies_mc=np.stack([m, 1.5 * m], axis=-1), ivar=w, coeffs_mc=np.stack([c, 2 * c], axis=-1),
                               reconstruct=True, kcorrect=True)
        if method == "asinh":
            i = np.arange(15).reshape(3, 5)
            mag, err, ext = (np.float32(x)[s] for x in (18. + (i * 3) % 4 * 0.7, 0.02 + 0.03 * (i % 3), 0.1 * (1 + i % 2)))
            if not corrected:
                return o.fit_coeffs_asinh(redshift=z, mag=mag, mag_err=err, extinction=ext)
            bi = np.arange(5)
            soft = np.array(ref.SOFT)
            f = 2. * soft * np.sinh(-0.4 * np.log(10.) * mag - np.log(soft)) * 10.**(0.4 * ext)
            iv = np.stack([ref.asinh_ivar(np.float64(mag[..., b]), np.float64(err[..., b]), b, np.float64(ext[..., b])) for b in bi], axis=-1)
            f, iv = self.corr(f, iv)
            return o.fit_coeffs(redshift=z, maggies=np.float32(f), ivar=np.float32(iv))
        raise KeyError(method)

    # fluxes enter here and are to be corrected; nowhere else
    CORRECTED = ("fit", "fit, mc", "fit, mc, no weights", "absmag", "absmag, distance", "absmag, all", "asinh")

    def step(self, method, which, *what):
        if method == "asinh" and not isinstance(self.k, KC.KcorrectSDSS):
            return False
        got = self.call(self.k, method, which, False)
        want = self.call(self.twin, method, which, method in self.CORRECTED)
        got = got if isinstance(got, tuple) else (got,)
        want = want if isinstance(want, tuple) else (want,)
        need(len(got) == len(want), *what, method, "returned", len(got), "arrays")
        for i, (a, b) in enumerate(zip(got, want)):
            a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
            if method.startswith("absmag"):
                ok = kc.mclose(a, b, 2e-4)
            elif method.startswith(("fit", "asinh")):
                ok = kc.close(a, b, 1e-5, atol=3e-4 * np.abs(b).max(initial=0.)) if i != 2 else kc.close(
                    a, b, 1e-5, atol=1e-6 * np.abs(b).max())
            else:
                ok = kc.close(a, b, 2e-5)
            need(ok, *what, method, which, "part", i, ": got", a, ", expected", b)
        return True


METHODS = ("fit", "fit, mc", "fit, mc, no weights", "absmag", "absmag, distance", "absmag, all", "absmag, flag off", "kcorrect", "reconstruct", "reconstruct_out",
           "derived", "derived_mc", "absmag_mc", "asinh")
_twins = {}


def pairs():
    for kind in KINDS:
        if kind not in _twins:
            _twins[kind] = make(kind, False, cls=KC.Kcorrect)
    _pairs.clear()
    for kind in KINDS:
        for flag in (None, True, False):
            for how in ("constructor", "attribute", "number", "file"):
                if how in ("attribute", "number") and flag is None:
                    continue
                try:
                    _pairs[kind, flag, how] = Pair(kind, flag, how, _twins[kind])
                except Violation as v:
                    _pairs[kind, flag, how] = v


_pairs = {}


def get(ch):
    kind = ch.pick("object", list(KINDS))
    flag = ch.pick("flag", (None, True, False))
    how = ch.pick("set by", ("constructor", "attribute", "number", "file") if flag is not None else ("constructor", "file"))
    p = _pairs[kind, flag, how]
    if isinstance(p, Violation):
        raise p
    return p, "%s flag=%s by %s:" % (kind, flag, how)


@check.harness()
def calls(tier):
    """8 kinds of object (general, SDSS, GALEX-SDSS-2MASS, with and without output bands of their own, three user-defined corrections); flag
    on, off or default, set on construction, as an attribute, as a numpy truth value or integer, or from a file; 13 calls; a catalogue, one row, or a single object"""
    pairs()

    def body(ch):
        p, what = get(ch)
        method = ch.pick("call", METHODS)
        which = ch.pick("rows", ("all", "row", "scalar", "other"))
        if not p.step(method, which, what):
            return None
        ch.checked()
        return "%s %s %s" % (what, method, which)
    return body


@check.harness()
def sequences(tier):
    """every sequence of 2 (thorough: 3) calls on one object, and on two objects with different flags"""
    pairs()
    depth = 2 if tier == "quick" else 3
    ways = [("constructor", "constructor"), ("attribute", "constructor"), ("file", "attribute")]

    def body(ch):
        kind = ch.pick("object", list(KINDS))
        how = ch.pick("set by", ways)
        a, b = _pairs[kind, True, how[0]], _pairs[kind, False, how[1]]
        for x in (a, b):
            if isinstance(x, Violation):
                raise x
        done = []
        for i in range(depth):
            on = ch.pick("flag %d" % i, (True, False))
            method = ch.pick("call %d" % i, METHODS)
            which = ch.pick("rows %d" % i, ("all", "scalar"))
            done.append("%s(%s)[%s]" % (method, which, on))
            if ch.fresh:
                if not (a if on else b).step(method, which, kind, " > ".join(done), ":"):
                    return None
                ch.checked()
            else:
                (a if on else b).step(method, which, kind)
        return " > ".join(done)
    return body


@check.harness()
def corrections(tier):
    """the objects' own to_ab: 8 kinds, 0, 1, 2 or 3-dimensional catalogues of 1 to 3 objects, with or without inverse variances, arrays or
    strided views: exactly the bands named are changed, by exactly the offsets"""
    pairs()

    def body(ch):
        kind = ch.pick("object", list(KINDS))
        p = _pairs[kind, True, "constructor"]
        n = ch.pick("objects", (None, 1, 2, 3))
        iv = ch.flag("ivar")
        view = ch.flag("strided view")
        m = p.m[0] if n is None else p.m[:n]
        w = p.w[0] if n is None else p.w[:n]
        if view:
            def strided(x):
                big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=np.float32)
                big[..., ::2] = x
                return big[..., ::2]
            m, w = strided(m), strided(w)
        m0, w0 = m.copy(), w.copy()
        got = p.k.to_ab(maggies=m, ivar=w) if iv else (p.k.to_ab(maggies=m),)
        need(isinstance(got, tuple) and len(got) == (2 if iv else 1), kind, "to_ab returned", got)
        want = KINDS[kind][5](np.float64(m0), np.float64(w0))
        for a, b in zip(got, want):
            need(kc.close(a, b, 2e-6), kind, "to_ab gave", a, "not", b)
        need(np.array_equal(m, m0) and np.array_equal(w, w0), kind, "to_ab changed its arguments")
        ch.checked()
        return "%s %s %s" % (kind, n, iv)
    return body


@check.harness()
def chained(tier):
    """fit, Monte Carlo and absolute magnitudes from catalogue to results: what fit_coeffs(mc) returns goes into absmag_mc and derived_mc,
    and gives what correcting first and the uncorrecting object give; 1 to 3 (thorough: 5) draws"""
    pairs()

    def body(ch):
        p, what = get(ch)
        mc = ch.pick("draws", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5))
        which = ch.pick("rows", ("all", "row", "scalar"))
        s = dict(all=slice(None), row=slice(1, 2), scalar=0)[which]
        z = p.z[s]
        kc.NOISE.reset(noise)
        c, cm, fm = p.k.fit_coeffs(redshift=z, maggies=p.m[s], ivar=p.w[s], mc=mc)
        am = p.k.absmag_mc(redshift=z, maggies_mc=fm, ivar=p.w[s], coeffs_mc=cm, kcorrect=True)
        kc.NOISE.reset(noise)
        c2, cm2, fm2 = p.twin.fit_coeffs(redshift=z, maggies=p.mc[s], ivar=p.wc[s], mc=mc)
        am2 = p.twin.absmag_mc(redshift=z, maggies_mc=fm2, ivar=p.wc[s], coeffs_mc=cm2, kcorrect=True)
        need(kc.close(fm, fm2, 1e-5, atol=1e-6 * np.abs(fm2).max()), what, "fluxes", fm, "not", fm2)
        need(kc.close(cm, cm2, 1e-5, atol=3e-4 * np.abs(cm2).max()), what, "coefficients", cm, "not", cm2)
        for a, b in zip(am, am2):
            need(kc.mclose(a, b, 2e-3), what, "magnitudes", a, "not", b)
        ch.checked(3)
        return "%s %d %s" % (what, mc, which)
    return body
