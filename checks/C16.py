"""C16 a saved K-correction object reloads as the same object"""
import os
import pickle

import numpy as np
import astropy.cosmology
from astropy.io import fits

from mc import kc, ref
from mc.engine import Check, Violation, need

kcorrect = kc.load()
KC = kcorrect.kcorrect
Template = kcorrect.template.Template
SED = kcorrect.template.SED
check = Check("C16", assumptions=[
    "An object is reloaded with the class it had (the file does not record the class).",
    "The cosmology is a property of the receiving object, not of the file.",
    "Results are compared to those of the object that was saved, to 2e-5 (bit-equal grids, templates and names)."],
    rule="Executions are all combinations of configurations and reload routes, and all sequences of operations up to the depth bound, each in its own "
         "process.")

COSMO = astropy.cosmology.FlatLambdaCDM(H0=72., Om0=0.27)


def long_band():
    d = os.path.join(kc.scratch(), "x" * 120, "y" * 110)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "longband")
    if not os.path.exists(p + ".dat"):
        w, r = kc.bump(5200., 500.)
        kc.write_dat(p, w, r)
    return p


def name(b):
    return long_band() if b == "long" else kc.bands(b)[0] if b in kc.BANDS else b


def template_path(kind):
    n = 1 if kind.startswith("1") else 3
    if "image" in kind:
        p = os.path.join(kc.scratch(), "c16-image%d.fits" % n)
        if not os.path.exists(p):
            w, f, prop = kc.template_arrays(n, 48)
            kc.write_templates(p, w, f, prop, binimage=True)
        return p
    return kc.template_file(n, 48, order=(2, 0, 1) if kind == "3 reordered" else None, uneven=15 if "uneven" in kind else 0)


def make(cls="Kcorrect", responses=("b1", "b3", "b4"), out=None, rmap=None, rng=(0., 1.), n=5, ab=None, templates="3", interp=False,
         cosmo=None):
    kw = dict(responses=[name(b) for b in responses], templates=(SED if "spectra" in templates else Template)(filename=template_path(templates), interpolate=interp),
              redshift_range=list(rng), nredshift=n)
    if out is not None:
        kw["responses_out"] = [name(b) for b in out]
    if rmap is not None:
        kw["responses_map"] = [name(b) for b in rmap]
    if ab is not None:
        kw["abcorrect"] = ab
    if cosmo is not None:
        kw["cosmo"] = cosmo
    return getattr(KC, cls)(**kw)


def attributes(o):
    t = o.templates
    return dict(responses=[str(x) for x in o.responses], out=[str(x) for x in o.responses_out], map=[str(x) for x in o.responses_map],
                imap=np.array(o.imap), rng=np.array(o.redshift_range, dtype=np.float64), n=int(o.nredshift),
                z=np.array(o.redshifts, dtype=np.float64), ab=bool(o.abcorrect), wave=np.array(t.restframe_wave, dtype=np.float64),
                flux=np.array(t.restframe_flux, dtype=np.float64), tz=float(t.redshift), kind=isinstance(t, Template),
                **{p: np.array(getattr(t, p), dtype=np.float64) for p in ("intsfh", "mremain", "mets", "m50", "m300", "m1000") if isinstance(t, Template)})


def behaviour(o):
    """Results of every public method at several redshifts (cosmology of the object)"""
    lo, hi = float(o.redshift_range[0]), float(o.redshift_range[1])
    z = np.float32([max(lo, 0.01), lo + 0.37 * (hi - lo), hi, np.float32(hi) + np.float32(1.), lo + 0.62 * (hi - lo)])
    nb, ns = len(o.responses), o.templates.nsed
    c = (1. + np.arange(5 * ns).reshape(5, ns) % 4).astype(np.float32)
    for i, j in ((1, 0), (2, ns // 2), (4, ns - 1)):
        c[i] = np.float32(1. + i) * (np.arange(ns) == j)      # one template alone
    m = (1e-9 * (1. + (np.arange(5 * nb).reshape(5, nb) * 3) % 7)).astype(np.float32)
    w = (1e18 * (1. + np.arange(5 * nb).reshape(5, nb) % 3)).astype(np.float32)
    ok = [0, 1, 2, 4]
    r = dict(fit=o.fit_coeffs(redshift=z, maggies=m, ivar=w), one=o.fit_coeffs(redshift=z[1], maggies=m[1], ivar=w[1]),
             rec=o.reconstruct(redshift=z[ok], coeffs=c[ok]), recout=o.reconstruct_out(redshift=z[ok], coeffs=c[ok]))
    bs = 0.3 * (hi - lo) / (1. + hi)
    inside = [i for i in ok if z[i] + bs * (1 + z[i]) <= hi]
    r["recshift"] = o.reconstruct_out(redshift=z[inside], coeffs=c[inside], band_shift=bs)
    bk = lo if lo > 0 else 0.
    r["kcorrect"] = o.kcorrect(redshift=z[ok], coeffs=c[ok], band_shift=bk)
    r["absmag"], r["alim"] = o.absmag(redshift=z[ok], coeffs=c[ok], maggies=m[ok], ivar=w[ok], band_shift=bk, limit=True)
    if isinstance(o.templates, Template):
        for k, v in o.derived(redshift=z[ok], coeffs=c[ok], band_shift=bk).items():
            r["derived " + k] = v
    return {k: np.asarray(v, dtype=np.float64) for k, v in r.items()}


def compare(o, want, what, cls=None):
    att, beh = want
    got = attributes(o)
    need(cls is None or type(o).__name__ == cls, what, "class", type(o))
    need(set(got) == set(att), what, "attributes", sorted(got), "not", sorted(att))
    for k in att:
        a, b = got[k], att[k]
        same = a == b
        if isinstance(b, np.ndarray):
            same = kc.same(a, b) and (k == "flux" or k == "wave" or bool(np.array_equal(a, b)))
        need(same, what, k, a, "should be", b)
    beh2 = behaviour(o)
    need(set(beh2) == set(beh), what, "results", sorted(beh2))
    for k in beh:
        scale = np.max(np.abs(np.where(np.isfinite(beh[k]), beh[k], 0.)), axis=-1, keepdims=True) if beh[k].ndim == 2 else np.abs(
            beh[k][np.isfinite(beh[k])]).max(initial=0.)
        need(kc.close(beh2[k], beh[k], 2e-5, atol=3e-6 * scale), what, k, beh2[k], "should be", beh[k])


def registry(how):
    f = kcorrect.response.ResponseDict()
    if how != "as left by the save":
        f.clear()
    if how == "others":
        f.load_response(kc.bands("b7")[0])
        f.load_response("sdss_r0")
    elif how == "some of them":
        f.load_response(kc.bands("b3")[0])


def reload(o, path, route, other):
    """The object read back from path"""
    if route == "new object":
        return type(o)(filename=path)
    if route == "new object, other cosmology":
        return type(o)(filename=path, cosmo=COSMO)
    if route == "existing object":
        x = make(**other)
        x.fromfits(filename=path)
        return x
    raise Violation(route)


BANDS = [(("b1", "b3", "b4"), None, None), (("b2",), None, None), (("b1", "b3", "b4"), ("b5", "b2"), ("b4", "b1")),
         (("b1", "b2"), ("b2", "b3", "b4"), ("b1", "b1", "b2")), (("b3", "b1", "b4"), ("b3", "b1", "b4"), ("b4", "b1", "b3")),
         (("b1", "b1", "b3"), ("b1",), ("b3",)), (("long", "b3"), ("b4", "long"), ("long", "b3")),
         (("sdss_g0", "sdss_r0"), ("bessell_V",), ("sdss_g0",)), (("b1", "b2", "b3", "b4"), ("b1", "b2", "b3", "b5"), None),
         (("b4", "b3", "b2", "b1"), ("b1", "b2", "b3", "b4"), None),
         (("b1", "b2", "b3"), ("b3", "b1"), ("b3", "b1")), (("b4", "b2"), ("b2", "b4"), ("b2", "b4")),
         (("b1", "b3"), ("b4", "long"), ("b1", "b3")), (("s2", "sub/s", "s", "S"), ("s.2", "sub/s", "s", "S"), ("sub/s", "s", "s2", "S"))]


def setup():
    for t in ("1", "3", "3 reordered", "1 image", "3 image", "3 uneven"):
        template_path(t)
    kcorrect.response.ResponseDict().clear()


@check.harness(isolate=True)
def configurations(tier):
    """12 sets of bands, output bands and maps; 6 redshift ranges and grids; AB flag; 9 template sets (one with normalisations 30 decades apart, three of plain spectra without physical properties), kept interpolated or not
    (quick: template sets and flags vary with default ranges, ranges with one template set); saved and reloaded as a new object, from
    an emptied registry"""
    setup()
    ranges = (((0., 1.), 5), ((0.1, 0.73), 4), ((0., 0.1), 2), ((0, 1), 3), ((0.05, 1.3), 11), ((0.3333333, 0.6666667), 7))
    temps = ("3", "1", "3 reordered", "3 image", "1 image", "3 uneven", "3 spectra", "1 spectra", "3 spectra image")

    def body(ch):
        b = ch.pick("bands", BANDS)
        r = ch.pick("range and grid", ranges)
        full = tier != "quick" or r is ranges[0]
        t = ch.pick("templates", temps if full else temps[:1])
        ab = ch.pick("AB flag", (False, True, None) if full else (True,))
        it = ch.pick("templates interpolated", (False, True) if full else (False,))
        path = os.path.join(kc.scratch(), "c16-%d.fits" % os.getpid())
        o = make(responses=b[0], out=b[1], rmap=b[2], rng=r[0], n=r[1], ab=ab, templates=t, interp=it)
        att = attributes(o)
        need(att["responses"] == [name(x) for x in b[0]], "bands", att["responses"])
        want = att, behaviour(o)
        try:
            o.tofits(filename=path)
            compare(o, want, "the saved object itself:")
            registry("empty")
            x = KC.Kcorrect(filename=path)
            compare(x, want, "reloaded:")
            need(x.cosmo is astropy.cosmology.Planck18, "default cosmology", x.cosmo)
            ch.checked(2)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return "%s %s %s" % (b, r, t)
    return body


OTHER = [dict(responses=("b5",), rng=(0., 0.2), n=3, templates="1"),
         dict(responses=("b1", "b3", "b4"), out=("b6",), rmap=("b1",), rng=(0., 1.), n=5, ab=True),
         dict(responses=("b4", "b3", "b1", "b2"), rng=(0.5, 3.), n=4, templates="3 spectra", interp=True, cosmo=COSMO)]


@check.harness(isolate=True)
def routes(tier):
    """3 (thorough: 12) band sets, reloaded by every route (new object, new object with another cosmology, onto 3 other objects), from
    4 kinds of registry, in the saving process or another one, once or after saving the reloaded object again (up to 2, thorough 3, generations),
    used before saving or not"""
    setup()
    sets = BANDS if tier != "quick" else [BANDS[i] for i in (2, 3, 6)]

    def body(ch):
        b = ch.pick("bands", sets)
        route = ch.pick("route", ("new object", "existing object 0", "existing object 1", "existing object 2", "new object, other cosmology"))
        reg = ch.pick("registry", ("empty", "as left by the save", "others", "some of them"))
        proc = ch.flag("in another process")
        gens = ch.pick("generations", (1, 2) if tier == "quick" else (1, 2, 3))
        used = ch.flag("used and templates redshifted before saving")
        path = os.path.join(kc.scratch(), "c16-%d" % os.getpid())
        files = [path + "-%d.fits" % i for i in range(3)] + [path + ".want"]

        def save():
            o = make(responses=b[0], out=b[1], rmap=b[2], rng=(0.05, 0.9), n=6, ab=True, templates="3 spectra" if b is BANDS[3] else "3", cosmo=COSMO if "cosmology" in route else None)
            if "2" in route:
                o.cosmo = COSMO
            want = attributes(o), behaviour(o)
            if used:
                o.templates.set_redshift(0.4)
            o.tofits(filename=files[0])
            return o, want
        try:
            if proc:
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        with open(files[3], "wb") as fp:
                            pickle.dump(save()[1], fp)
                        code = 0
                    finally:
                        os._exit(code)
                need(os.waitpid(pid, 0)[1] == 0, "saving failed")
                with open(files[3], "rb") as fp:
                    want = pickle.load(fp)
            else:
                o, want = save()
            registry(reg)
            for g in range(gens):
                if route.startswith("existing"):
                    x = make(**OTHER[int(route[-1])])
                    if g == 1:
                        behaviour(x)
                    x.fromfits(filename=files[g])
                else:
                    x = KC.Kcorrect(filename=files[g], **(dict(cosmo=COSMO) if "cosmology" in route else {}))
                compare(x, want, "generation %d:" % (g + 1))
                ch.checked()
                if g + 1 < gens:
                    x.tofits(filename=files[g + 1])
                    if g == 0:
                        registry(reg)
            if not proc and not used:
                compare(o, want, "the saved object itself:")
        finally:
            for f in files:
                if os.path.exists(f):
                    os.unlink(f)
        return "%s %s %s" % (b, route, reg)
    return body


SUB = [("KcorrectSDSS", dict(responses=("sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"))),
       ("KcorrectGST", dict(responses=("galex_FUV", "galex_NUV", "sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0", "twomass_J",
                                       "twomass_H", "twomass_Ks"))),
       ("KcorrectSDSS", dict(responses=("sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"), out=("bessell_B", "bessell_V"),
                             rmap=("sdss_g0", "sdss_g0")))]


@check.harness(isolate=True)
def subclasses(tier):
    """SDSS and GALEX-SDSS-2MASS objects with the AB flag on, off or default, reloaded onto one with any other flag"""
    setup()

    def body(ch):
        cls, kw = ch.pick("kind", SUB)
        ab = ch.pick("AB flag", (None, True, False))
        ab2 = ch.pick("AB flag of the receiving object", (None, True, False))
        path = os.path.join(kc.scratch(), "c16-%d.fits" % os.getpid())
        o = make(cls=cls, ab=ab, n=3, rng=(0., 0.4), **kw)
        want = attributes(o), behaviour(o)
        try:
            o.tofits(filename=path)
            registry("empty")
            x = make(cls=cls, ab=ab2, n=4, rng=(0., 0.3), responses=kw["responses"])
            x.fromfits(filename=path)
            compare(x, want, "reloaded", cls)
            # the general object reads the same file, without the correction of the class
            need(attributes(KC.Kcorrect(filename=path)).keys() == want[0].keys(), "general object")
            ch.checked()
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return "%s %s %s" % (cls, ab, ab2)
    return body


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


OPS = [Op(x) for x in (("save X to F",), ("save Y to F",), ("X reads F",), ("Y reads F",), ("X is new from F",), ("use X",), ("empty registry",),
                       ("shift templates of Y",), ("save X to G",), ("Y reads G",), ("empty registry, load bands of X again",))]
XY = [dict(responses=("b1", "b3"), out=("b4",), rmap=("b3",), rng=(0., 0.45), n=4, templates="3"),
      dict(responses=("b2", "b3", "b1"), rng=(0.1, 0.9), n=3, templates="1 spectra", ab=True)]


@check.harness(isolate=True)
def histories(tier):
    """two objects and two files: every sequence of 3 (thorough: 5) operations out of 11: saving either object over either file, reading
    a file in place or as a new object, using, shifting templates, emptying the registry"""
    setup()
    want = []
    for kw in XY:
        o = make(**kw)
        want.append((attributes(o), behaviour(o)))
    kcorrect.response.ResponseDict().clear()
    depth = 3 if tier == "quick" else 5

    def body(ch):
        base = os.path.join(kc.scratch(), "c16h-%d" % os.getpid())
        path = dict(F=base + "F.fits", G=base + "G.fits")
        objs = dict(X=make(**XY[0]), Y=make(**XY[1]))
        is_ = dict(X=0, Y=1)
        file = dict(F=None, G=None)
        done = []
        try:
            for i in range(depth):
                op = ch.pick("operation %d" % (i + 1), OPS)[0]
                done.append(op)
                w = op.split()
                if w[0] == "save":
                    objs[w[1]].tofits(filename=path[w[3]])
                    file[w[3]] = is_[w[1]]
                elif w[1] == "reads":
                    if file[w[2]] is None:
                        return None
                    objs[w[0]].fromfits(filename=path[w[2]])
                    is_[w[0]] = file[w[2]]
                elif w[1] == "is":
                    if file["F"] is None:
                        return None
                    objs["X"] = KC.Kcorrect(filename=path["F"])
                    is_["X"] = file["F"]
                elif op == "use X":
                    for r in objs["X"].responses + list(objs["X"].responses_out):
                        kcorrect.response.ResponseDict().load_response(r)
                    behaviour(objs["X"])
                elif w[0] == "shift":
                    objs["Y"].templates.set_redshift(0.3)
                else:
                    kcorrect.response.ResponseDict().clear()
                    if "again" in op:
                        for r in objs["X"].responses + list(objs["X"].responses_out):
                            kcorrect.response.ResponseDict().load_response(r)
            for k, o in objs.items():
                for r in list(o.responses) + list(o.responses_out):
                    kcorrect.response.ResponseDict().load_response(r)
                o.templates.set_redshift(0.)
                compare(o, want[is_[k]], " > ".join(done) + ": " + k)
                ch.checked()
        finally:
            for f in path.values():
                if os.path.exists(f):
                    os.unlink(f)
        return "%s %s" % (is_, file)
    return body
