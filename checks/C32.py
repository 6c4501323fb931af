"""C32 arguments mean the same by position, by name and by default"""
import itertools
import os

import astropy.cosmology
import numpy as np

from mc import kc
from mc.common import build
from mc.engine import Check, need
from mc.world import equal, freeze, spectrum, templates, whole

kc.patch_noise()
kcorrect = kc.load()
K, R, T, U, F = kcorrect.kcorrect, kcorrect.response, kcorrect.template, kcorrect.utils, kcorrect.fitter
check = Check("C32", assumptions=["The documented names, order and defaults of the arguments are those of the documentation at the pinned commit, "
                                  "listed in the table of this check.",
                                  "Options added at the end of a signature are not looked at."],
              rule="Executions are all (call, values of its options, number of arguments given by position, choice of defaults left out).")

NEEDED = object()
SDSS = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
GST = ["galex_FUV", "galex_NUV"] + SDSS + ["twomass_J", "twomass_H", "twomass_Ks"]
FLAG = [False, True]
WMAP = astropy.cosmology.WMAP5


class Spec:
    """One public call: what makes the callable, its arguments in order as (name, documented default, values), and what to look at"""
    def __init__(self, name, make, args, look=lambda x, made: x):
        self.__name__ = name
        self.make, self.args, self.look = make, args, look


def path(tag):
    return os.path.join(kc.scratch(), "c32-%d-%s.fits" % (os.getpid(), tag))


def fitted(o):
    """A fitting object, made"""
    f = (1e-9 * (1. + np.arange(len(o.responses)) % 3)).astype(np.float32)
    c = o.fit_coeffs(redshift=np.float32(o.redshifts[1]), maggies=f, ivar=np.full(len(f), 1e20, dtype=np.float32))
    r = [type(o).__name__, list(o.responses), np.array(o.redshifts), np.array(o.redshift_range), float(o.nredshift), float(bool(o.abcorrect)), c,
         templates(o.templates), float(bool(o.templates.interpolate))]
    if hasattr(o, "cosmo"):
        r += [o.cosmo.name, list(o.responses_out), list(o.responses_map), np.array(o.imap), np.array(o.Amatrix(o.redshifts[:2])),
              np.array(o.AmatrixOut(o.redshifts[:2]))]
    return r


def plain(o):
    o.set_Amatrix()
    return fitted(o)


def response(r):
    return [np.array(r.wave), np.array(r.response), float(r.lambda_eff), str(r.filename)]


def content(p):
    """What an extension by extension reading of a file shows"""
    from astropy.io import fits
    with fits.open(p) as h:
        return [[x.name, None if x.data is None else np.array(x.data).tobytes().hex()] for x in h]


def written(x, made):
    p = path("out")
    r = content(p)
    os.unlink(p)
    return r


def refused(exc):
    return ["refused", type(exc).__name__]


def specs():
    z, c = np.float32([0.2, 0.55]), np.float32([[1., 2., 0.5], [0.3, 0., 4.]])
    f, w = np.float32([[1e-9, 3e-9, 2e-9], [5e-9, 4e-9, 7e-9]]), np.float32([[1e20, 2e20, 3e19], [4e19, 1e19, 5e20]])
    k, m = build(("b2", "b3", "b4"), ("b5", "b3"), ("b4", "b2"), nt=3, rng=(0., 1.), n=6)
    # the correction of an object with an AB correction of its own
    class Own(K.Kcorrect):
        def to_ab(self, maggies=None, ivar=None):
            return maggies * np.float32(1.25), (None if ivar is None else ivar / np.float32(1.25**2))
    own, m = build(("b2", "b3", "b4"), ("b5", "b3"), ("b4", "b2"), nt=3, rng=(0., 1.), n=6, cls=Own, abcorrect=True)
    sdss, m = build(SDSS, nt=3, rng=(0., 1.), n=3, cls=K.KcorrectSDSS)
    cheap = kc.bands("b2", "b3", "b4", "b5", "b6", "b1", "b7", "s", "s2", "S")
    gst, m = build(GST, nt=3, rng=(0., 1.), n=3, cls=K.KcorrectGST)
    f5 = (1e-9 * (1. + np.arange(10).reshape(2, 5))).astype(np.float32)
    w5 = (1e19 * (1. + np.arange(10)[::-1].reshape(2, 5))).astype(np.float32)
    f10, w10 = np.hstack([f5, f5 * 2]), np.hstack([w5, w5 * 3])
    mc3 = np.stack([f, f * 1.5], axis=-1)
    c3 = np.stack([c, c[::-1]], axis=-1)
    mag5 = np.float32([[18., 17., 16.5, 20., 19.], [22., 21., 23., 24., 15.]])
    err5 = np.float32([[.1, .2, .05, .3, .15], [.5, .4, .2, .6, .01]])
    ext5 = np.float32([[.5, .4, .3, .2, .1], [1., .8, .6, .4, .2]])
    band = [0., 0.1, np.float32(-0.1)]
    dist = [None, 321., np.float32([100., 250.])]
    zc = [("redshift", NEEDED, [z]), ("coeffs", NEEDED, [c]), ("band_shift", 0., band)]
    names = cheap[:2]
    tset = kc.template_file(2, 64)
    wave, flux = np.linspace(3000., 9000., 40).astype(np.float32), (1. + np.arange(80).reshape(2, 40) % 7).astype(np.float32)
    spec = lambda: T.SED(wave=wave, flux=flux)                                                 # noqa: E731
    dat = os.path.join(kcorrect.KCORRECT_DIR, "data", "responses", "sdss_g0.dat")
    two, three = [0., 1.], [0.1, 0.7]
    T.SED(wave=wave, flux=flux).tofits(filename=os.path.join(kc.scratch(), "c32-s.fits"), ext="FLUX")
    T.SED(wave=wave * 2., flux=flux).tofits(filename=os.path.join(kc.scratch(), "c32-s.fits"), ext="TWO", clobber=False)
    # spectra read from an extension of a table
    spath = os.path.join(kc.scratch(), "c32-s.fits")
    R.Response(wave=wave, response=flux[0]).tofits(filename=os.path.join(kc.scratch(), "c32-r.fits"), ext="FLUX")
    R.Response(wave=wave * 2., response=flux[1]).tofits(filename=os.path.join(kc.scratch(), "c32-r.fits"), ext="TWO", clobber=False)
    rpath = os.path.join(kc.scratch(), "c32-r.fits")
    build(("b2", "b3"), ("b5", ), ("b3", ), nt=2, rng=(0., 1.), n=6)[0].tofits(os.path.join(kc.scratch(), "c32-k.fits"))
    kpath = os.path.join(kc.scratch(), "c32-k.fits")
    some = os.path.join(kc.scratch(), "c32-responses")
    os.makedirs(some, exist_ok=True)
    for n, text in (("ok", "|lambda|pass|\n|4000|0.|\n|4100|1.|\n|4200|0.|\n"), ("broken", "nothing\n")):
        with open(os.path.join(some, n + ".dat"), "w") as fp:
            fp.write(text)

    def prepared(obj, what="old"):
        """A method that writes, with a file in its way"""
        def make():
            p = path("out")
            T.SED(wave=wave[:5], flux=flux[:, :5]).tofits(p, ext="OLD")
            return getattr(obj(), what)
        return make

    def templ():
        return T.Template(filename=tset)

    def resp():
        return R.Response(filename=dat)

    def at_least(fn):
        return lambda x, made: fn(made.__self__)

    def registry():
        r = R.ResponseDict()
        r.load_response(names[0])
        return r.load_response

    before = {}

    def loading():
        fn = registry()
        before[0] = R.ResponseDict()[names[0]]
        return fn

    def redshifted(x, made):
        return spectrum(made.__self__)

    base = [("responses", NEEDED, [names]), ("templates", NEEDED, [templ])]
    out = [("responses_out", None, [None, names[:1]]), ("responses_map", None, [None, names[1:]])]
    grid = [("redshift_range", NEEDED, [three]), ("nredshift", NEEDED, [3])]

    return [
        Spec("fit_coeffs", lambda: k.fit_coeffs, [("redshift", NEEDED, [z]), ("maggies", NEEDED, [f]), ("ivar", NEEDED, [w]), ("mc", 0, [0, 2])]),
        Spec("fit_coeffs of an object with its own AB correction", lambda: own.fit_coeffs,
             [("redshift", NEEDED, [z]), ("maggies", NEEDED, [f]), ("ivar", NEEDED, [w]), ("mc", 0, [0, 2])]),
        Spec("reconstruct", lambda: k.reconstruct, zc),
        Spec("reconstruct_out", lambda: k.reconstruct_out, zc),
        Spec("kcorrect", lambda: k.kcorrect, zc),
        Spec("derived", lambda: k.derived, zc + [("distance", None, dist)]),
        Spec("derived_mc", lambda: k.derived_mc, [zc[0], ("coeffs_mc", NEEDED, [c3]), zc[2], ("distance", None, dist)]),
        Spec("absmag", lambda: own.absmag, [("maggies", NEEDED, [f]), ("ivar", NEEDED, [w])] + zc + [
            ("distance", None, dist[::2]), ("reconstruct", False, FLAG), ("limit", False, FLAG), ("kcorrect", False, FLAG),
            ("abcorrect", None, [None, True, False])]),
        Spec("absmag_mc", lambda: own.absmag_mc, [("maggies_mc", NEEDED, [mc3]), ("ivar", NEEDED, [w]), zc[0], ("coeffs_mc", NEEDED, [c3]), zc[2],
                                                  ("distance", None, dist[::2]), ("reconstruct", False, FLAG), ("kcorrect", False, FLAG)]),
        Spec("KcorrectSDSS.to_ab", lambda: sdss.to_ab, [("maggies", NEEDED, [f5]), ("ivar", None, [None, w5])]),
        Spec("KcorrectGST.to_ab", lambda: gst.to_ab, [("maggies", NEEDED, [f10]), ("ivar", None, [None, w10])]),
        Spec("Kcorrect.to_ab", lambda: k.to_ab, [("maggies", NEEDED, [f]), ("ivar", None, [None, w])]),
        Spec("fit_coeffs_asinh", lambda: sdss.fit_coeffs_asinh, [("redshift", NEEDED, [z]), ("mag", NEEDED, [mag5]), ("mag_err", NEEDED, [err5]),
                                                                ("extinction", None, [None, ext5])]),
        Spec("sdss_asinh_to_maggies", lambda: U.sdss_asinh_to_maggies, [("mag", NEEDED, [mag5]), ("mag_err", None, [None, err5]),
                                                                        ("extinction", None, [None, ext5])]),
        Spec("sdss_ab_correct", lambda: U.sdss_ab_correct, [("maggies", NEEDED, [f5]), ("ivar", None, [None, w5]),
                                                            ("abfix", [-0.036, 0.012, 0.010, 0.028, 0.040],
                                                             [[-0.036, 0.012, 0.010, 0.028, 0.040], [0.1, 0.2, 0., -0.1, 0.3]])]),
        Spec("error_floor", lambda: U.error_floor, [("floor", NEEDED, [np.float32([.02, .3, .1, .05, .2])]), ("maggies", NEEDED, [f5]),
                                                    ("ivar", NEEDED, [w5])]),
        Spec("maggies2flambda", lambda: U.maggies2flambda, [("maggies", NEEDED, [f]), ("ivar", None, [None, w]),
                                                            ("responses", NEEDED, [cheap[:3]])]),
        Spec("sed_ab", lambda: U.sed_ab, [("wave", NEEDED, [wave])]),
        Spec("read_basel", lambda: U.read_basel, [("filename", NEEDED, [os.path.join(kcorrect.KCORRECT_DIR, "data", "basel", "lcbsun.ori")])]),
        Spec("project of a spectrum", lambda: resp().project, [("sed", NEEDED, [spec])]),
        Spec("project of arrays", lambda: resp().project, [("sed", None, [None]), ("wave", NEEDED, [wave]), ("flux", NEEDED, [flux[0]])]),
        Spec("Response of a file", lambda: R.Response, [("filename", NEEDED, [dat])], lambda x, made: response(x)),
        Spec("Response of arrays", lambda: R.Response, [("filename", None, [None]), ("wave", NEEDED, [wave]), ("response", NEEDED, [flux[1]])],
             lambda x, made: response(x)),
        Spec("Response.fromfits", lambda: R.Response().fromfits, [("filename", NEEDED, [rpath]), ("ext", 1, [1, "FLUX", "TWO", 2])],
             at_least(lambda r: [np.array(r.wave), np.array(r.response)])),
        Spec("Response.fromdat", lambda: R.Response().fromdat, [("filename", NEEDED, [dat])], at_least(lambda r: [np.array(r.wave), np.array(r.response)])),
        Spec("Response.tofits", prepared(resp, "tofits"), [("filename", NEEDED, [lambda: path("out")]), ("ext", "FLUX", ["FLUX", "ANOTHER"]),
                                                           ("clobber", True, [True, False])], written),
        Spec("all_responses", lambda: R.all_responses,
             [("response_dir", os.path.join(kcorrect.KCORRECT_DIR, "data", "responses"), [os.path.join(kcorrect.KCORRECT_DIR, "data", "responses"), some]),
              ("check_validity", False, FLAG)], lambda x, made: sorted(x)),
        Spec("load_response", loading, [("response", NEEDED, [names[0]]), ("reload", False, FLAG)],
             lambda x, made: [float(R.ResponseDict()[names[0]] is before[0])]),
        Spec("SED of a file", lambda: T.SED, [("filename", NEEDED, [spath]), ("wave", None, [None]), ("flux", None, [None]), ("ext", "FLUX", ["FLUX", "TWO"]),
                                              ("interpolate", True, [True, False])], lambda x, made: [spectrum(x), float(x.interp is None)]),
        Spec("SED of arrays", lambda: T.SED, [("filename", None, [None]), ("wave", NEEDED, [wave]), ("flux", NEEDED, [flux]), ("ext", "FLUX", ["FLUX"]),
                                              ("interpolate", True, [True, False])], lambda x, made: [spectrum(x), float(x.interp is None)]),
        Spec("SED.fromfits", lambda: T.SED().fromfits, [("filename", NEEDED, [spath]), ("ext", "FLUX", ["FLUX", "TWO"])], redshifted),
        Spec("SED.tofits", prepared(spec, "tofits"), [("filename", NEEDED, [lambda: path("out")]), ("ext", "FLUX", ["FLUX", "ANOTHER"]),
                                                      ("clobber", True, [True, False])], written),
        Spec("SED.set_redshift", lambda: at(spec()).set_redshift, [("redshift", 0., [0., 0.3])], redshifted),
        Spec("Template", lambda: T.Template, [("filename", NEEDED, [tset]), ("ext", "FLUX", ["FLUX"]), ("interpolate", False, FLAG)],
             lambda x, made: [templates(x), float(x.interpolate)]),
        Spec("Template.tofits", prepared(templ, "tofits"), [("filename", NEEDED, [lambda: path("out")]), ("clobber", True, [True, False])], written),
        Spec("Fitter", lambda: F.Fitter, base + [("redshift_range", [0., 1.], [two, three]), ("nredshift", NEEDED, [4]), ("abcorrect", False, [False])],
             lambda x, made: plain(x)),
        Spec("Kcorrect of a file", lambda: K.Kcorrect, [("filename", NEEDED, [kpath])], lambda x, made: fitted(x)),
        Spec("Kcorrect.fromfits", lambda: bare().fromfits, [("filename", NEEDED, [kpath])], lambda x, made: whole(made.__self__)),
        Spec("Kcorrect.tofits", lambda: k.tofits, [("filename", NEEDED, [lambda: path("out")])], written),
        Spec("Kcorrect", lambda: K.Kcorrect, [("filename", None, [None])] + base + out + [
            ("redshift_range", [0., 2.], [[0., 2.], three]), ("nredshift", NEEDED, [3]), ("abcorrect", False, [False]),
            ("cosmo", None, [None, astropy.cosmology.Planck18, WMAP]), ("interpolate_templates", True, FLAG)], lambda x, made: fitted(x)),
        Spec("Kcorrect with the shipped templates", lambda: K.Kcorrect, [("filename", None, [None]), base[0], ("templates", None, [None])] + [
            (n, None, [None]) for n in ("responses_out", "responses_map")] + grid + [
                ("abcorrect", False, [False]), ("cosmo", None, [None]), ("interpolate_templates", True, FLAG)], lambda x, made: fitted(x)),
        Spec("KcorrectSDSS", lambda: K.KcorrectSDSS, [("responses", SDSS, [SDSS]), base[1], ("responses_out", None, [None, SDSS[1:3]]),
                                                      ("responses_map", None, [None, SDSS[2:4]]), ("redshift_range", [0., 2.], [[0., 2.], three]),
                                                      ("nredshift", NEEDED, [3]), ("abcorrect", True, FLAG), ("cosmo", None, [None, WMAP])],
             lambda x, made: fitted(x)),
        Spec("KcorrectGST", lambda: K.KcorrectGST, [("responses", GST, [GST]), base[1], ("responses_out", None, [None, GST[1:3]]),
                                                    ("responses_map", None, [None, GST[2:4]]), ("redshift_range", [0., 2.], [[0., 2.], three]),
                                                    ("nredshift", NEEDED, [3]), ("abcorrect", False, [False]), ("cosmo", None, [None, WMAP])],
             lambda x, made: fitted(x))]


def at(s):
    s.set_redshift(0.7)
    return s


def bare():
    return build(("b4", ), nt=3, rng=(0., 0.5), n=3)[0]


def same(a, b):
    """Equal values: None, a default given as such, or anything equal"""
    if a is NEEDED or b is NEEDED:
        return False
    if a is None or b is None:
        return a is b
    return type(a) in (list, str, bool, int, float) and a == b


def value(v):
    """A value to give: a copy of its own"""
    if callable(v):
        return v()
    return v.copy() if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)


def outcome(spec, given, kwargs):
    kc.NOISE.reset(lambda i: (i * 0.37) % 3. - 1.5)
    made = spec.make()
    try:
        x = made(*given, **kwargs)
    except (ValueError, OSError) as e:
        return refused(e)
    finally:
        kc.NOISE.script = None
    return freeze(spec.look(x, made))


def show(spec, npos, given, kwargs):
    return "%s(%s)" % (spec.__name__, ", ".join(["<%s>" % a[0] for a in spec.args[:npos]] + sorted(kwargs)))


def wanted(memo, spec, picked):
    """By name, with every argument given"""
    key = (spec.__name__, tuple(picked))
    if key not in memo:
        memo[key] = outcome(spec, (), {a[0]: value(a[2][i]) for a, i in zip(spec.args, picked)})
    return memo[key]


SLOW = ("Kcorrect", "Kcorrect with the shipped templates", "KcorrectSDSS", "KcorrectGST")


@check.harness()
def forms(tier):
    """43 public calls and constructors x every combination of 1 to 4 values of their options x every number of arguments given by position
    x every choice of arguments at their documented default left out: the result of giving everything by name"""
    every = specs()
    memo = {}

    def body(ch):
        spec = ch.pick("call", every)
        picked = [ch.pick(a[0], range(len(a[2]))) for a in spec.args]
        given = [a[2][i] for a, i in zip(spec.args, picked)]
        # from here on a default may be left out
        npos = ch.pick("by position", range(len(given) + 1))
        rest = list(range(npos, len(given)))
        can = [i for i in rest if same(given[i], spec.args[i][1])]
        if len(can) > 3 and (tier == "quick" or spec.__name__ in SLOW):
            # all of them, none of them, each alone
            choice = [(), tuple(can)] + [(i, ) for i in can]
        else:
            choice = [x for n in range(len(can) + 1) for x in itertools.combinations(can, n)]
        left = choice[ch.pick("left out", range(len(choice)))]
        if spec.__name__ in SLOW and tier == "quick" and npos not in (0, 2, 5, len(given)):
            return None
        want = wanted(memo, spec, picked)
        kwargs = {spec.args[i][0]: value(given[i]) for i in rest if i not in left}
        got = outcome(spec, [value(v) for v in given[:npos]], kwargs)
        need(equal(got, want), show(spec, npos, given, kwargs), "with values", picked, "gives", lambda: got, "but by name", lambda: want)
        ch.checked()
        return spec.__name__
    return body


@check.harness()
def misspelled(tier):
    """the same calls with each of their arguments under 6 wrong names, instead of or beside the right one: refused, never ignored"""
    every = specs()

    def body(ch):
        spec = ch.pick("call", every)
        i = ch.pick("argument", range(len(spec.args)))
        name = spec.args[i][0]
        wrong = ch.pick("as", (name + "s", name + "_", name.upper(), name[:-1], "_" + name, "no_such_option"))
        beside = ch.flag("beside")
        kwargs = {a[0]: value(a[2][-1]) for a in spec.args if a[0] != name or beside}
        if wrong in [a[0] for a in spec.args]:
            return None
        kwargs[wrong] = value(spec.args[i][2][-1])
        made = spec.make()
        try:
            made(**kwargs)
        except TypeError:
            ch.checked()
            return "refused"
        except (ValueError, OSError, AttributeError) as e:
            need(False, spec.__name__, "accepts", wrong, "in place of" if not beside else "beside", name, "and raises", lambda: repr(e))
        finally:
            if os.path.exists(path("out")):
                os.unlink(path("out"))
        need(False, spec.__name__, "accepts", wrong, "in place of" if not beside else "beside", name)
    return body


@check.harness()
def defaults(tier):
    """objects made with every choice of 1 or 2 options given and all others left out, the redshift grid among them (2000 and 4000 redshifts): the documented ones"""
    names = kc.bands("b2")
    t = kc.template_file(1, 40)

    def body(ch):
        cls = ch.pick("class", (F.Fitter, K.Kcorrect))
        opt = dict(redshift_range=[0.05, 0.3], nredshift=5, cosmo=WMAP, responses_out=names)
        use = [n for n in (("redshift_range", "nredshift") if cls is F.Fitter else ("redshift_range", "nredshift", "cosmo", "responses_out")) if ch.flag(n)]
        o = cls(responses=names, templates=T.Template(filename=t), **{n: opt[n] for n in use})
        if cls is F.Fitter:
            o.set_Amatrix()
        rng = opt["redshift_range"] if "redshift_range" in use else ([0., 1.] if cls is F.Fitter else [0., 2.])
        n = 5 if "nredshift" in use else (2000 if cls is F.Fitter else 4000)
        need(o.nredshift == n and len(o.redshifts) == n, cls.__name__, "with", use, "has", o.nredshift, "redshifts, not", n)
        need(np.allclose(o.redshifts, np.linspace(rng[0], rng[1], n), atol=1e-6), cls.__name__, "with", use, "has the grid", lambda: o.redshifts)
        need(kc.close(np.float64(o.redshift_range), np.float32(rng)), cls.__name__, "with", use, "has the range", o.redshift_range)
        need(not o.abcorrect, cls.__name__, "with", use, "corrects to AB")
        if cls is K.Kcorrect:
            need(o.cosmo is (WMAP if "cosmo" in use else astropy.cosmology.Planck18), "cosmology", o.cosmo)
            need(list(o.responses_out) == names and list(o.responses_map) == names, "bands", o.responses_out, o.responses_map)
        ch.checked(5)
        return "%s %s" % (cls.__name__, use)
    return body


@check.harness()
def stored(tier):
    """objects with the shipped templates, interpolated or not by choice or by default: interpolated at first exactly if asked for or by default"""
    def body(ch):
        given = ch.pick("interpolate_templates", ({}, dict(interpolate_templates=True), dict(interpolate_templates=False)))
        o = K.Kcorrect(responses=kc.bands("b3"), nredshift=2, redshift_range=[0., 0.1], **given)
        want = given.get("interpolate_templates", True)
        need(bool(o.templates.interpolate) == want and (getattr(o.templates, "interp", None) is not None) == want, given, "templates interpolated:",
             o.templates.interpolate)
        ch.checked()
        return str(want)
    return body
