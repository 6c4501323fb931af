"""C21 template storage mode, number and order do not affect the model"""
import itertools

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
KC = kcorrect.kcorrect
Template = kcorrect.template.Template
SED = kcorrect.template.SED
Fitter = kcorrect.fitter.Fitter
check = Check("C21", assumptions=[
    "Model fluxes are those of the objects' interpolators at grid redshifts, reached through reconstruct and reconstruct_out with one "
    "coefficient set to one and through the documented Amatrix attribute; they are compared with float64 photometry of the template file "
    "to 1e-4 and among each other to 2e-6."],
    rule="Executions are all combinations of template counts, orders, storage modes, band lists and grids.")

NW = 40
MODES = ("plain", "interpolated", "interpolated later", "plain, redshifted before", "interpolated, redshifted before")


def template(path, mode):
    t = Template(filename=path, interpolate=mode.startswith("interpolated") and "later" not in mode)
    if "later" in mode:
        t.set_interp()
    if "before" in mode:
        t.set_redshift(0.7)
    return t


_expect = {}


def expected(path, tag, z):
    """Fluxes of all templates of a file in a band at a redshift"""
    key = path, tag, round(float(z), 9)
    if key not in _expect:
        t = ref.Templates(path)
        _expect[key] = ref.band(kc.bands(tag)[0]).project(t.wave * (1. + float(z)), t.flux / (1. + float(z)))
    return _expect[key]


def agree(got, want, tol, *what):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    need(got.shape == want.shape, *what, "shape", got.shape, "not", want.shape)
    bad = ~(np.abs(got - want) <= tol * np.abs(want) + 1e-25)
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        need(False, *what, "%d of %d model fluxes differ; at %s got %r, expected %r" % (bad.sum(), bad.size, i, got[i], want[i]))


def wide_file(n):
    """n templates that are all different (the first n of the same series)"""
    return kc.template_file(n, NW)


BIG = (1, 2, 3, 5, 10, 99, 100, 101, 255, 256, 257, 499, 500, 501, 511, 512, 513, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1500, 1999,
       2000, 2001)
BIGGER = (2047, 2048, 2049, 2500, 2999, 3000, 3001, 4000, 4001, 5001, 9999, 10000, 10001)


@check.harness()
def counts(tier):
    """29 (thorough: 42) numbers of templates around round numbers, storage modes, output bands of their own or not: the fluxes of every template"""
    ns = BIG if tier == "quick" else BIG + BIGGER
    for n in ns:
        wide_file(n)
    full = ref.Templates(wide_file(ns[-1]))
    grid = (0., 0.2)
    want = {(b, i): ref.band(kc.bands(b)[0]).project(full.wave * (1 + z), full.flux / (1 + z))
            for b in ("b2", "b4") for i, z in enumerate(grid)}

    def body(ch):
        n = ch.pick("templates", ns)
        mode = ch.pick("storage", MODES[:3] if n > 600 else MODES)
        own = ch.flag("output bands of their own")
        path = wide_file(n)
        k = KC.Kcorrect(responses=kc.bands("b2"), responses_out=kc.bands("b4") if own else None,
                        responses_map=kc.bands("b2") if own else None, templates=template(path, mode), redshift_range=[0., 0.2],
                        nredshift=2)
        out = "b4" if own else "b2"
        z = np.float32([0., 0.2])
        a, b = k.Amatrix(k.redshifts), k.AmatrixOut(k.redshifts)
        for i in (0, 1):
            agree(a[i], [want["b2", i][:n]], 1e-4, n, "templates,", mode, "z", z[i])
            agree(b[i], [want[out, i][:n]], 1e-4, n, "templates,", mode, "output, z", z[i])
        # and through the public method, for one template at a time at and around multiples of sizes
        for j in sorted({0, n - 1, n // 2, min(n - 1, 999), min(n - 1, 1000), min(n - 1, 1999)}):
            c = np.zeros((2, n), dtype=np.float32)
            c[:, j] = 1.
            agree(k.reconstruct(redshift=z, coeffs=c)[:, 0], [want["b2", 0][j], want["b2", 1][j]], 1e-4, n, "templates,", mode, "template", j)
        ch.checked(4)
        return "%d %s %s" % (n, mode, own)
    return body


@check.harness()
def orders(tier):
    """every selection and order of up to 4 (thorough: 5) templates, storage modes: each template's fluxes, fits and properties follow it"""
    top = 4 if tier == "quick" else 5
    sel = [s for n in range(1, top + 1) for s in itertools.permutations(range(top), n)]
    full = kc.template_file(top, NW)
    for s in sel:
        kc.template_file(top, NW, order=s)
    bands = ("b2", "b3", "b5")
    grid = (0., 0.25, 0.5)
    want = np.array([[expected(full, b, z) for b in bands] for z in grid])
    for z in grid:
        expected(full, "b4", z)
    prop = ref.Templates(full)

    def body(ch):
        s = list(ch.pick("templates", sel))
        mode = ch.pick("storage", MODES)
        k = KC.Kcorrect(responses=kc.bands(*bands), responses_out=kc.bands("b4"), responses_map=kc.bands("b3"),
                        templates=template(kc.template_file(top, NW, order=s), mode), redshift_range=[0., 0.5], nredshift=3)
        agree(k.Amatrix(k.redshifts), want[:, :, s], 1e-4, s, mode)
        agree(k.AmatrixOut(k.redshifts), [[expected(full, "b4", z)[s]] for z in grid], 1e-4, s, mode, "output")
        # fluxes of a mixture, and its derived quantities, do not depend on the order
        weight = 1. + 0.7 * np.arange(top)
        c = np.float32(weight[s])
        agree(k.reconstruct(redshift=np.float32(0.25), coeffs=c), want[1][:, s].dot(weight[s]), 1e-4, s, mode, "mixture")
        d = k.derived(redshift=np.float32(0.25), coeffs=c)
        agree(d["metallicity"], (weight * prop.mremain * prop.mets)[s].sum() / (weight * prop.mremain)[s].sum(), 1e-4, s, "metallicity")
        agree(d["b300"], (weight * prop.m300)[s].sum() / (weight * prop.intsfh)[s].sum(), 1e-4, s, "b300")
        # noiseless fluxes of the mixture give the mixture back (at most as many templates as bands)
        if len(s) <= 3:
            m = want[1][:, s].dot(weight[s])
            fit = k.fit_coeffs(redshift=np.float32(0.25), maggies=np.float32(m), ivar=np.float32(1. / (1e-3 * m)**2))
            agree(np.asarray(want[1][:, s].dot(np.float64(fit))), m, 1e-3, s, mode, "fit")
        ch.checked(5)
        return "%s %s" % (s, mode)
    return body


@check.harness()
def bands(tier):
    """every list of 1 to 4 (thorough: 5) of four bands, repeats included, as observed or output bands or, in every rotation, as both;
    storage modes: each band's fluxes are what they are alone"""
    four = ("b1", "b3", "b4", "b7")
    top = 4 if tier == "quick" else 5
    lists = [s for n in range(1, top + 1) for s in itertools.product(four, repeat=n)]
    path = kc.template_file(3, NW)
    grid = (0.1, 0.4, 0.7)
    want = {b: np.array([expected(path, b, z) for z in grid]) for b in four}
    alone = {}
    for b in four:
        for mode in MODES[:2]:
            k = KC.Kcorrect(responses=kc.bands(b), templates=template(path, mode), redshift_range=[0.1, 0.7], nredshift=3)
            alone[b, mode] = k.Amatrix(k.redshifts)[:, 0, :]

    def body(ch):
        s = ch.pick("bands", lists)
        mode = ch.pick("storage", MODES[:2])
        use = ch.pick("as", ("observed", "output", "both") if len(set(s)) > 1 else ("observed", "output"))
        kw = dict(templates=template(path, mode), redshift_range=[0.1, 0.7], nredshift=3)
        if use == "observed":
            k = KC.Kcorrect(responses=kc.bands(*s), **kw)
            a = k.Amatrix(k.redshifts)
        elif use == "both":
            r = ch.pick("output bands rotated by", range(1, len(s)))
            k = KC.Kcorrect(responses=kc.bands(*s), responses_out=kc.bands(*(s[r:] + s[:r])), responses_map=kc.bands(*s), **kw)
            a, b = k.Amatrix(k.redshifts), k.AmatrixOut(k.redshifts)
            need(b.shape == (3, len(s), 3), s, "output shape", b.shape)
            for i, x in enumerate(s[r:] + s[:r]):
                agree(b[:, i], want[x], 1e-4, s, mode, "output bands rotated by", r, "band", i, x)
        else:
            k = KC.Kcorrect(responses=kc.bands("b5"), responses_out=kc.bands(*s), responses_map=kc.bands("b5") * len(s), **kw)
            a = k.AmatrixOut(k.redshifts)
            agree(k.Amatrix(k.redshifts)[:, 0], [expected(path, "b5", z) for z in grid], 1e-4, s, "observed band")
        need(a.shape == (3, len(s), 3), s, "shape", a.shape)
        for i, b in enumerate(s):
            agree(a[:, i], want[b], 1e-4, s, mode, use, "band", i, b)
            agree(a[:, i], alone[b, mode], 2e-6, s, mode, use, "band", i, b, "and alone")
        ch.checked(2 * len(s))
        return "%s %s %s" % (s, mode, use)
    return body


@check.harness()
def grids(tier):
    """every redshift grid lo to hi with points at multiples of 0.05 (lo, hi in 0, 0.05 .. 0.4; every number of points that divides it
    evenly, and thorough: also numbers that do not), storage modes: fluxes at each grid redshift are those of a grid of its own"""
    path = kc.template_file(2, NW)
    step = 0.05
    top = 8
    cells = [(i, j, (j - i) // m + 1) for i in range(top) for j in range(i + 1, top + 1) for m in range(1, j - i + 1) if (j - i) % m == 0]
    two = ("b1", "b4")
    for i in range(top + 1):
        for b in two:
            expected(path, b, round(i * step, 6))

    def body(ch):
        i, j, n = ch.pick("grid", cells)
        mode = ch.pick("storage", MODES[:2])
        k = KC.Kcorrect(responses=kc.bands(*two), responses_out=kc.bands(two[1]), responses_map=kc.bands(two[0]),
                        templates=template(path, mode), redshift_range=[step * i, step * j], nredshift=n)
        m = (j - i) // (n - 1)
        a, b = k.Amatrix(k.redshifts), k.AmatrixOut(k.redshifts)
        for q in range(n):
            z = round(step * (i + q * m), 6)
            need(abs(float(k.redshifts[q]) - z) < 1e-6, "grid redshift", q, k.redshifts[q])
            agree(a[q], [expected(path, x, z) for x in two], 1e-4, "grid", (i, j, n), "z", z)
            agree(b[q], [expected(path, two[1], z)], 1e-4, "grid", (i, j, n), "output, z", z)
        ch.checked(2 * n)
        return "%d %d %d %s" % (i, j, n, mode)
    return body


@check.harness()
def fine(tier):
    """grids of 12 redshifts 1e-5 to 2e-3 apart from three first redshifts up and the usual grid (0 to 2, 4000 redshifts), storage modes: fluxes at
    every grid redshift (every 50th of the usual grid), compared to 1e-5 as neighbours differ little"""
    path = kc.template_file(2, NW)
    two = ("b1", "b4")
    cells = [(lo, d, 12, 1) for lo in (0., 0.3, 1.7) for d in (1e-5, 1e-4, 5e-4, 1e-3, 2e-3)] + [(0., 2. / 3999, 4000, 50)]

    def body(ch):
        lo, d, n, every = ch.pick("grid", cells)
        mode = ch.pick("storage", MODES[:2])
        k = KC.Kcorrect(responses=kc.bands(*two), responses_out=kc.bands(two[1]), responses_map=kc.bands(two[0]),
                        templates=template(path, mode), redshift_range=[lo, lo + d * (n - 1)], nredshift=n)
        t = ref.Templates(path)
        a, b = k.Amatrix(k.redshifts), k.AmatrixOut(k.redshifts)
        for q in list(range(0, n, every)) + [n - 1]:
            z = float(k.redshifts[q])
            need(abs(z - (lo + d * q)) < 3e-7, "grid redshift", q, z)
            want = [ref.band(kc.bands(x)[0]).project(t.wave * (1. + z), t.flux / (1. + z)) for x in two]
            agree(a[q], want, 1e-5, "grid", (lo, d, n), "z", z)
            agree(b[q], want[1:], 1e-5, "grid", (lo, d, n), "output, z", z)
        ch.checked(2 * (n // every))
        return "%s %s %s" % (lo, d, mode)
    return body


@check.harness()
def spectra(tier):
    """fitting objects on SED objects: from arrays (1-D or 2-D, float32 or float64) or files (table or binary images), any storage mode"""
    w, f, prop = kc.template_arrays(3, NW)
    path = kc.template_file(3, NW)
    import os
    image = os.path.join(kc.scratch(), "c21image.fits")
    kc.write_templates(image, w, f, prop, binimage=True)
    one = kc.template_file(1, NW)
    want = {n: np.array([[expected(one if n == 1 else path, b, z) for b in ("b2", "b4")] for z in (0., 0.3)]) for n in (1, 3)}

    def body(ch):
        src = ch.pick("spectra from", ("1-D arrays", "2-D arrays", "2-D arrays of one", "table", "images", "one in a table"))
        interp = ch.pick("interpolated", (True, False))
        dt = ch.pick("type", (np.float32, np.float64)) if "arrays" in src else None
        if "arrays" in src:
            flux = f[0] if src.startswith("1") else f[:1] if "one" in src else f
            s = SED(wave=w.astype(dt), flux=flux.astype(dt), interpolate=interp)
        else:
            s = SED(filename=dict(table=path, images=image).get(src, one), interpolate=interp)
        n = 1 if "1-D" in src or "one" in src else 3
        k = Fitter(responses=kc.bands("b2", "b4"), templates=s, redshift_range=[0., 0.3], nredshift=2)
        k.set_Amatrix()
        agree(k.Amatrix(k.redshifts), want[n], 1e-4, src, interp, dt)
        ch.checked()
        return "%s %s %s" % (src, interp, dt)
    return body


@check.harness()
def defaults(tier):
    """objects of the three kinds with the default template set, kept interpolated or not as requested (general kind) or by default, given
    explicitly or not, default and other bands: template by template, from the shipped file"""
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    gst = ["galex_FUV", "galex_NUV"] + sd + ["twomass_J", "twomass_H", "twomass_Ks"]
    kinds = {"general": (KC.Kcorrect, None), "SDSS": (KC.KcorrectSDSS, sd), "GST": (KC.KcorrectGST, gst)}
    T = ref.Templates(ref.DEFAULT_TEMPLATES)

    def body(ch):
        kind = ch.pick("kind", list(kinds))
        cls, usual = kinds[kind]
        names = ch.pick("bands", ([] if usual is None else [None]) + [kc.bands("b2", "b4"), ["sdss_g0"]])
        how = ch.pick("templates", ("default", "interpolated", "plain") + (
            ("default, True", "default, False") if kind == "general" else ()))
        out = ch.pick("output bands", (None, ["bessell_V"]))
        kw = {} if names is None else dict(responses=list(names))
        if how in ("interpolated", "plain"):
            kw["templates"] = Template(filename=ref.DEFAULT_TEMPLATES, interpolate=how == "interpolated")
        elif "," in how:
            kw["interpolate_templates"] = how.endswith("True")
        full = names or usual
        if out is not None:
            kw.update(responses_out=out, responses_map=[full[0]])
        k = cls(redshift_range=[0., 0.5], nredshift=3, **kw)
        need(list(k.responses) == full and k.templates.nsed == T.n, kind, "bands", k.responses, "templates", k.templates.nsed)
        for q, z in enumerate((0., 0.25, 0.5)):
            for a, bb in ((k.Amatrix, full), (k.AmatrixOut, out or full)):
                m = ref.Model(T, bb, None, None, lo=0., hi=0.5, n=3)
                agree(a(k.redshifts)[q], m.A(z), 1e-4, kind, how, bb, "z", z)
        for n in ("intsfh", "mremain", "mets", "m50", "m300", "m1000"):
            need(kc.close(getattr(k.templates, n), getattr(T, n), 1e-6), kind, how, n)
        ch.checked(6)
        return "%s %s %s %s" % (kind, names, how, out)
    return body
