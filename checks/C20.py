"""C20 malformed requests are rejected"""
import itertools

import numpy as np

from mc import kc
from mc.common import build
from mc.engine import Check, Violation, need

kcorrect = kc.load()
KC = kcorrect.kcorrect
U = kcorrect.utils
check = Check("C20", assumptions=[
    "Values are finite numbers; only shapes, lengths and names are malformed.",
    "A scalar redshift is 0-dimensional; an empty catalogue (length 0) is not required to be accepted."],
    rule="Executions are all combinations of shapes (0 to 3 dimensions, every length from 0 to one more than fits) of the arguments of "
         "every method.")


def shapes(counts, lengths):
    """Shapes of 0 to 3 dimensions"""
    out = [()]
    out += [(k,) for k in lengths]
    out += [(n, k) for n in counts for k in lengths]
    out += [(1, 1, lengths[-2]), (counts[-1], 1, lengths[-2]), (1, counts[-1], lengths[-2]), (1, 1, 1)]
    return list(dict.fromkeys(out))


def arr(shape, start=1.):
    n = int(np.prod(shape, dtype=int))
    a = (start * (1. + (np.arange(n) * 3) % 5)).astype(np.float32).reshape(shape)
    return a if shape else np.float32(start)


def as_type(a, how):
    return a.tolist() if how == "list" else a


def outcome(fn):
    try:
        return fn(), None
    except (ValueError, TypeError) as e:
        return None, e
    except Exception as e:                                  # noqa: BLE001
        raise Violation("raised %s: %s instead of ValueError or TypeError" % (type(e).__name__, e))


def matches(z, shape, n):
    """Does an argument of that shape, with n values per object, go with a redshift of shape z"""
    if z is None or len(z) > 1:
        return False
    return tuple(shape) == tuple(z) + (n,)


ZS = [(), (1,), (2,), (3,), None, (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (0,)]


def zvalue(s):
    return None if s is None else arr(s, 0.05)


def objects():
    """(object, bands, templates, output bands): counts that differ from each other, and the smallest"""
    return [(build(("b1", "b3", "b4"), ("b2", "b5"), ("b1", "b3"), nt=2, rng=(0., 0.5), n=3)[0], 3, 2, 2),
            (build(("b3",), nt=1, rng=(0., 0.5), n=3)[0], 1, 1, 1),
            (build(("b3", "b4"), ("b2", "b5", "b6"), ("b3", "b3", "b4"), nt=3, rng=(0., 0.5), n=3)[0], 2, 3, 3)]


def judge(what, ok, empty, fn, shape):
    """fn must give a result of that shape if ok, and ValueError or TypeError otherwise"""
    got, err = outcome(fn)
    if empty:
        return "empty"
    if ok:
        need(err is None, what, "is well formed but raised", lambda: repr(err))
        for g, s in zip(got if isinstance(got, tuple) else (got,), shape):
            need(np.shape(g) == s, what, "gave shape", np.shape(g), "not", s)
        return "accepted"
    need(err is not None, what, "is malformed but was accepted:", lambda: got)
    return "rejected"


@check.harness()
def fits(tier):
    """fit_coeffs, with and without Monte Carlo sets: every combination of shapes of redshift, fluxes and inverse variances for three
    objects; as arrays or lists"""
    objs = objects()

    def body(ch):
        o = ch.pick("object", (0, 1, 2))
        k, nb, nt, no = objs[o]
        z = ch.pick("redshift", ZS)
        sh = shapes((0, 1, 2, 3, 4) if tier != "quick" else (0, 1, 2, 3), range(nb + 2))
        m = ch.pick("fluxes", sh)
        w = ch.pick("inverse variances", sh)
        how = ch.pick("as", ("array", "list"))
        # only argument combinations in which at least one matches are worth repeating with Monte Carlo
        mc = ch.pick("mc", (0, 1, 2) if matches(z, m, nb) or matches(z, w, nb) else (0,))
        ok = matches(z, m, nb) and matches(z, w, nb)
        lead = z if z is not None and len(z) < 2 else ()
        shape = [lead + (nt,)] + ([lead + (nt, mc), lead + (nb, mc)] if mc else [])
        args = dict(redshift=zvalue(z) if z is None else as_type(zvalue(z), how), maggies=as_type(arr(m, 1e-9), how),
                    ivar=as_type(arr(w, 1e18), how))
        if mc:
            args["mc"] = mc
        r = judge("fit_coeffs %s" % ((z, m, w),), ok, ok and z == (0,), lambda: k.fit_coeffs(**args), shape)
        ch.checked()
        return "%s %s %s" % (r, z, mc)
    return body


@check.harness()
def distances(tier):
    """absmag, derived and their Monte Carlo forms given distances: every shape of the distances with every number of objects"""
    objs = objects()

    def body(ch):
        o = ch.pick("object", (0, 1, 2))
        k, nb, nt, no = objs[o]
        z = ch.pick("redshift", ((), (1,), (2,), (3,)))
        d = ch.pick("distances", shapes((0, 1, 2, 3), range(5)))
        method = ch.pick("method", ("absmag", "derived", "absmag_mc", "derived_mc"))
        how = ch.pick("as", ("array", "list"))
        mc = ch.pick("mc", (1, 2)) if method.endswith("mc") else None
        end = () if mc is None else (mc,)
        c, m = arr(z + (nt,) + end), arr(z + (nb,) + end, 1e-9)
        kw = {"coeffs" + ("_mc" if mc else ""): c, "redshift": as_type(zvalue(z), how), "distance": as_type(arr(d, 40.), how)}
        shape = [z + (no,) + end]
        if method.startswith("absmag"):
            kw.update({"maggies" + ("_mc" if mc else ""): m, "ivar": arr(z + (nb,), 1e18)})
            fn = lambda: getattr(k, method)(**kw)                                           # noqa: E731
        else:
            fn = lambda: getattr(k, method)(**kw)["mtol"]                                   # noqa: E731
        r = judge("%s, redshifts %s, distances %s" % (method, z, d), z == d, False, fn, shape)
        ch.checked()
        return "%s %s %s" % (r, z, method)
    return body


@check.harness()
def fluxes(tier):
    """reconstruct, reconstruct_out, kcorrect, derived and derived_mc: every combination of shapes of redshift and coefficients"""
    objs = objects()

    def body(ch):
        o = ch.pick("object", (0, 1, 2))
        k, nb, nt, no = objs[o]
        z = ch.pick("redshift", ZS)
        c = ch.pick("coefficients", shapes((0, 1, 2, 3, 4), range(nt + 2)))
        method = ch.pick("method", ("reconstruct", "reconstruct_out", "kcorrect", "derived", "derived_mc"))
        bs = ch.pick("band shift", (0., 0.1))
        how = ch.pick("as", ("array", "list"))
        if method == "reconstruct" and bs and tier == "quick":
            return None
        mc = ch.pick("mc", (1, 2)) if method == "derived_mc" else None
        lead = z if z is not None and len(z) < 2 else ()
        ok = matches(z, c, nt)
        zz = zvalue(z) if z is None else as_type(zvalue(z), how)
        cc = arr(c)
        fn = getattr(k, method)
        if method.startswith("derived"):
            names = ("mremain", "intsfh", "metallicity", "b50", "b300", "b1000", "mtol")
            end = () if mc is None else (mc,)
            shape = [lead + end] * 6 + [lead + (no,) + end]
            if mc is not None:
                cc = np.repeat(np.asarray(cc)[..., None], mc, axis=-1)

                def call():
                    d = fn(redshift=zz, coeffs_mc=cc, band_shift=bs)
                    return tuple(d[n] for n in names)
            else:
                def call():
                    d = fn(redshift=zz, coeffs=as_type(cc, how), band_shift=bs)
                    return tuple(d[n] for n in names)
        else:
            shape = [lead + (nb if method == "reconstruct" else no,)]

            def call():
                return fn(redshift=zz, coeffs=as_type(cc, how), band_shift=bs)
        r = judge("%s %s" % (method, (z, c)), ok, ok and z == (0,), call, shape)
        ch.checked()
        return "%s %s %s" % (r, method, z)
    return body


@check.harness()
def magnitudes(tier):
    """absmag and absmag_mc: every combination of shapes of redshift, fluxes, inverse variances and coefficients in which at most two
    arguments do not fit a scalar, one-row or two-row (thorough: also three-row) request, and every shape of redshift"""
    objs = objects()

    def body(ch):
        o = ch.pick("object", (0, 1, 2))
        k, nb, nt, no = objs[o]
        mc = ch.pick("mc", (None, 1, 2))
        z = ch.pick("redshift", ZS)
        base = z if z is not None and len(z) < 2 else ch.pick("around", ((), (1,), (2,)))
        wrong = ch.pick("not fitting", (None, "fluxes", "inverse variances", "coefficients", "fluxes and inverse variances",
                                        "fluxes and coefficients", "inverse variances and coefficients"))
        good = dict(m=base + (nb,), w=base + (nb,), c=base + (nt,))
        n = dict(m=nb, w=nb, c=nt)
        name = dict(m="fluxes", w="inverse variances", c="coefficients")
        counts = (0, 1, 2, 3)
        for a in good:
            if wrong is not None and name[a] in wrong.split(" and "):
                good[a] = ch.pick(name[a], shapes(counts, range(n[a] + 2)))
        ok = all(matches(z, good[a], n[a]) for a in good)
        zz = zvalue(z)
        m, w, c = arr(good["m"], 1e-9), arr(good["w"], 1e18), arr(good["c"])
        lead = z if z is not None and len(z) < 2 else ()
        shape = lead + (no,)
        if mc is None:
            opt = ch.pick("optional outputs", (False, True))

            def call():
                return k.absmag(redshift=zz, maggies=m, ivar=w, coeffs=c, reconstruct=opt, limit=opt, kcorrect=opt)
        else:
            opt = True
            mm = np.repeat(np.asarray(m)[..., None], mc, axis=-1)
            cc = np.repeat(np.asarray(c)[..., None], mc, axis=-1)
            shape = shape + (mc,)

            def call():
                return k.absmag_mc(redshift=zz, maggies_mc=mm, ivar=w, coeffs_mc=cc, reconstruct=True, kcorrect=True)
        r = judge("absmag%s %s %s" % ("" if mc is None else "_mc", z, good), ok, ok and z == (0,), call, [shape] * (4 if opt else 1))
        ch.checked()
        return "%s %s %s %s" % (r, z, mc, wrong)
    return body


@check.harness()
def asinh(tier):
    """fit_coeffs_asinh: every combination of shapes of redshift, magnitudes and errors, with and without extinction"""
    k = build(["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"], nt=2, rng=(0., 0.4), n=3, cls=KC.KcorrectSDSS)[0]
    sh = [(), (4,), (5,), (6,), (1,), (0,), (1, 5), (2, 5), (3, 5), (2, 4), (2, 6), (5, 5), (5, 2), (5, 1), (2, 1), (1, 1, 5), (2, 1, 5)]

    def body(ch):
        z = ch.pick("redshift", ZS)
        m = ch.pick("magnitudes", sh)
        e = ch.pick("errors", sh)
        x = ch.pick("extinction", [None] + sh)
        ok = matches(z, m, 5) and matches(z, e, 5) and (x is None or matches(z, x, 5))
        args = dict(redshift=zvalue(z), mag=15. + 0.1 * arr(m), mag_err=0.02 * arr(e))
        if x is not None:
            args["extinction"] = 0.05 * arr(x)
        lead = z if z is not None and len(z) < 2 else ()

        def call():
            try:
                return k.fit_coeffs_asinh(**args)
            except IndexError as err:
                raise ValueError(err)
        r = judge("fit_coeffs_asinh %s" % ((z, m, e, x),), ok, ok and z == (0,), call, [lead + (2,)])
        ch.checked()
        return "%s %s" % (r, z)
    return body


@check.harness()
def conversions(tier):
    """sdss_ab_correct, sdss_asinh_to_maggies and error_floor: every combination of shapes"""
    sh = [(), (0,), (1,), (4,), (5,), (6,), (1, 4), (1, 5), (1, 6), (2, 4), (2, 5), (2, 6), (3, 5), (5, 2), (5, 5), (5, 1), (2, 1), (2, 0)]

    def body(ch):
        what = ch.pick("function", ("ab", "ab offsets", "asinh", "floor"))
        if what == "ab":
            m = ch.pick("maggies", sh)
            w = ch.pick("ivar", [None] + sh)
            ok = len(m) > 0 and m[-1] == 5 and (w is None or w == m)
            f = (lambda: U.sdss_ab_correct(maggies=arr(m))) if w is None else (lambda: U.sdss_ab_correct(maggies=arr(m), ivar=arr(w)))
            shape = [m] if w is None else [m, m]
        elif what == "ab offsets":
            n = ch.pick("offsets", (0, 1, 2, 3, 4, 5, 6))
            m = ch.pick("maggies", ((5,), (1, 5), (2, 5), (n,), (2, n)))
            w = ch.flag("ivar")
            ok = n == 5
            off = [0.01 * i for i in range(n)]
            f = (lambda: U.sdss_ab_correct(maggies=arr(m), ivar=arr(m), abfix=off)) if w else (
                lambda: U.sdss_ab_correct(maggies=arr(m), abfix=off))
            shape = [m, m] if w else [m]
        elif what == "asinh":
            m = ch.pick("mag", sh)
            e = ch.pick("mag_err", [None] + sh)
            x = ch.pick("extinction", [None] + sh)
            ok = len(m) > 0 and m[-1] == 5 and e in (None, m) and x in (None, m)

            def f():
                kw = dict(mag=15. + 0.1 * arr(m))
                if e is not None:
                    kw["mag_err"] = arr(e, 0.1)
                if x is not None:
                    kw["extinction"] = arr(x, 0.1)
                return U.sdss_asinh_to_maggies(**kw)
            shape = [m] if e is None else [m, m]
        else:
            fl = ch.pick("floor", ((0,), (1,), (2,), (4,), (5,)))
            m = ch.pick("maggies", sh)
            w = ch.pick("ivar", sh)
            ok = len(m) > 0 and m[-1] == fl[0] and w == m and fl[0] > 0
            # a floor without bands does nothing
            if fl == (0,) and len(m) and m[-1] == 0:
                return None

            def f():
                return U.error_floor(floor=0.01 * arr(fl), maggies=arr(m), ivar=arr(w))
            shape = [m]

        try:
            got = f()
        except Exception as err:                            # noqa: BLE001
            need(not ok, what, "is well formed but raised", lambda: repr(err))
            ch.checked()
            return "rejected " + what
        need(ok, what, "is malformed but was accepted", lambda: got)
        got = got if isinstance(got, tuple) else (got,)
        need([np.shape(g) for g in got] == shape, what, "gave", lambda: [np.shape(g) for g in got])
        ch.checked()
        return "accepted " + what
    return body


@check.harness()
def projections(tier):
    """Response.project: every combination of shapes of wavelengths and fluxes, missing ones included"""
    R = kcorrect.response.Response()
    R.fromdat(kc.bands("b3")[0] + ".dat")
    lens = (0, 1, 4, 7, 8, 9)
    ws = [None, ()] + [(n,) for n in lens] + [(1, 8), (2, 8), (8, 1), (1, 1, 8)]
    fs = [None, ()] + [(n,) for n in lens] + [(m, n) for m in (1, 2, 8) for n in lens] + [(1, 1, 8), (2, 1, 8), (1, 2, 8), (2, 2, 2, 8)]

    def body(ch):
        w = ch.pick("wave", ws)
        f = ch.pick("flux", fs)
        ok = w is not None and f is not None and len(w) == 1 and len(f) in (1, 2) and f[-1] == w[0]
        wave = None if w is None else np.linspace(4000., 9000., int(np.prod(w, dtype=int))).astype(np.float32).reshape(w)
        args = dict(wave=wave, flux=None if f is None else arr(f, 1e-9))
        args = {a: v for a, v in args.items() if v is not None or ch.flag("pass None")}
        try:
            got = R.project(**args)
        except ValueError as e:
            need(not ok or w[0] < 4, "wave %s flux %s is well formed but raised %r" % (w, f, e))
            ch.checked()
            return "rejected"
        except Exception as e:                              # noqa: BLE001
            if ok and w[0] < 4:
                return "too few samples"
            raise Violation("wave %s flux %s: %s: %s" % (w, f, type(e).__name__, e))
        need(ok, "wave", w, "flux", f, "is malformed but gave", got)
        need(np.size(got) == (1 if len(f) == 1 else f[0]), "wave", w, "flux", f, "gave", got)
        ch.checked()
        return "accepted"
    return body


@check.harness()
def constructions(tier):
    """objects from every list of 1 or 2 (thorough: 3) observed bands out of three, an unknown one included, every list of 0 to 2
    (thorough: 3) output bands and every map of length 0 to 3, unobserved and unknown bands included, or neither or one of them given"""
    t = kcorrect.template.Template(filename=kc.template_file(2, 40))
    b = kc.bands("s", "s2", "sub/s")                        # names that are easily confused
    bad = b[0] + "_unknown"
    top = 2 if tier == "quick" else 3
    seqs = {n: list(itertools.product(range(3), repeat=n)) for n in range(4)}
    observed = [s for n in range(1, top + 1) for s in seqs[n]]
    label = b + [bad]

    class Named(list):
        def __repr__(self):
            return "[%s]" % ", ".join(x.rsplit("/", 1)[1] for x in self)

    def names(s):
        return Named(label[i] for i in s)

    def body(ch):
        with_bad = ch.pick("unknown response in", (None, "observed", "output", "both"))
        res = names(ch.pick("observed", observed))
        given = ch.pick("given", ("neither", "output", "map", "both"))
        out = names(ch.pick("output", [s for n in range(0, top + 1) for s in seqs[n]])) if given in ("output", "both") else None
        rmap = None
        if given in ("map", "both"):
            n = ch.pick("map length", range(0, top + 2))
            rmap = Named(label[ch.pick("map %d" % i, range(3 if tier == "quick" and n == 3 else 4))] for i in range(n))
        if with_bad in ("observed", "both"):
            res[ch.pick("unknown observed", range(len(res)))] = bad
        if with_bad in ("output", "both"):
            if not out:
                return None
            out[ch.pick("unknown output", range(len(out)))] = bad
        if out is not None and len(out) == 0:
            # no output bands at all: only a map that has bands is malformed
            if rmap is not None and len(rmap) == 0:
                return None
        eout = res if out is None else out
        emap = res if rmap is None else rmap
        ok = len(eout) == len(emap) and all(r in res for r in emap) and bad not in res and bad not in eout
        what = "responses %r, out %r, map %r" % (res, out, rmap)
        kw = {}
        if out is not None:
            kw["responses_out"] = list(out)
        if rmap is not None:
            kw["responses_map"] = list(rmap)
        reg = kcorrect.response.ResponseDict()
        try:
            k = KC.Kcorrect(responses=list(res), templates=t, redshift_range=[0., 0.3], nredshift=2, **kw)
        except Exception as e:                              # noqa: BLE001
            need(not ok, what, "is well formed but raised", lambda: repr(e))
            if bad not in res and bad not in eout and (bad not in emap):
                need(isinstance(e, ValueError), what, "raised", lambda: repr(e), "and not ValueError")
            need(bad not in reg, "an unknown response is in the registry")
            ch.checked()
            return "rejected %s" % with_bad
        need(ok, what, "is malformed but was accepted")
        need([res.index(r) for r in emap] == [int(i) for i in k.imap], what, "gave index map", lambda: k.imap)
        ch.checked()
        return "accepted %s" % given
    return body


@check.harness()
def unknown(tier):
    """every way of asking for a response that does not exist or cannot be read, in several spellings"""
    import os
    d = kc.scratch()
    junk = os.path.join(d, "c20junk")
    with open(junk + ".dat", "w") as fp:
        fp.write("not a response\n")
    t = kcorrect.template.Template(filename=kc.template_file(2, 40))
    good = kc.bands("b1")[0]
    names = ["sdss_q0", "sdss_r0.dat", "SDSS_R0", "", " ", "sdss_r0 ", good + ".dat", good + "x", os.path.dirname(good), junk, "../responses"]

    def body(ch):
        n = ch.pick("name", names)
        how = ch.pick("by", ("load", "load again", "reload", "object", "object output", "object map", "flux", "SDSS object", "GST object"))
        reg = kcorrect.response.ResponseDict()
        kw = dict(templates=t, redshift_range=[0., 0.3], nredshift=2)

        def call():
            if how.startswith("load"):
                if how.endswith("again"):
                    try:
                        reg.load_response(n)
                    except Exception:                       # noqa: BLE001
                        pass
                reg.load_response(n)
            elif how == "reload":
                reg.load_response(n, reload=True)
            elif how == "object":
                KC.Kcorrect(responses=[good, n], **kw)
            elif how == "object output":
                KC.Kcorrect(responses=[good], responses_out=[n], **kw)
            elif how == "object map":
                KC.Kcorrect(responses=[good], responses_map=[n], **kw)
            elif how == "flux":
                U.maggies2flambda(maggies=np.ones(1), responses=[n])
            elif how == "SDSS object":
                KC.KcorrectSDSS(responses=[n], **kw)
            else:
                KC.KcorrectGST(responses=[n], **kw)
        try:
            call()
        except Exception as e:                              # noqa: BLE001
            need(n not in reg, n, "is in the registry")
            ch.checked()
            return type(e).__name__
        raise Violation("response %r was accepted (%s)" % (n, how))
    return body
