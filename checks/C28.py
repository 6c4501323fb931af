"""C28 copies and pickles of objects are the same objects"""
import copy
import os
import pickle

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from mc import kc, ref
from mc.engine import Check, need
from mc.fresh import Fresh
from mc.world import CALLS, EVENTS, KC, call, curve, equal, freeze, kcorrect, pristine, scribble, spectrum, templates, whole

check = Check("C28", assumptions=[
    "Bandpasses are given by the names of their files, not put in the registry by hand: a freshly started interpreter can read them.",
    "Pickles are read by the version of kcorrect that wrote them. copy.copy() shares arrays by definition and is not looked at.",
    "Random draws are scripted and restart with every call."],
    rule="Executions are all (state, chain of copies, call) and all (kind of copy, change to one of the two, call on the other).")
T = kcorrect.template
R = kcorrect.response


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def deepcopy(o, fresh):
    return copy.deepcopy(o)


def pickled(proto):
    def f(o, fresh):
        return pickle.loads(pickle.dumps(o, proto))
    f.__name__ = "pickle(%d)" % proto
    return f


def there_and_back(o, fresh):
    """Through another interpreter, which does nothing with it"""
    return pickle.loads(fresh(pickle.dumps(o), nothing)[1])


def used_there(o, fresh):
    """Through another interpreter, which makes every call it can of it"""
    return pickle.loads(fresh(pickle.dumps(o), use)[1])


def nothing(o):
    return None


def use(o):
    if hasattr(o, "K1"):
        for name, fn in CALLS:
            call(o, fn)
    return None


def called(c, name):
    c.process = c.settings()
    got = freeze(call(c, dict(CALLS)[name]))
    c.unchanged(name)
    return got


WAYS = [deepcopy, pickled(2), pickled(5), there_and_back]
PRE = [Op(("as built", lambda c: None)), Op(("used", use))] + [Op(x) for x in EVENTS if not x[0].startswith(("fresh", "bandpass"))]
PROBES = ("K1.fit_coeffs", "K1.fit_coeffs(mc=2)", "K2.fit_coeffs_asinh", "K4.fit_coeffs", "K1.reconstruct_out(band_shift)", "K1.kcorrect",
          "K1.absmag(all)", "K2.absmag", "K4.absmag", "K1.absmag_mc", "K1.derived", "K3.kcorrect", "K3.fit_coeffs", "new object",
          "new object, interpolated templates", "save and reload K1", "bandpass.project(sed)", "K4.to_ab")


def objects(c):
    """Objects that may be copied on their own: name, object, what can be seen of it, what it may be turned into first"""
    w, f, p = kc.template_arrays(3, 64)
    f = R.ResponseDict()
    f.load_response(c.resp[1])
    b = ref.band(c.resp[2])
    own = KC.Kcorrect(responses=c.resp, templates=c.T, responses_out=c.out4, responses_map=c.map4, redshift_range=c.rng, nredshift=3)
    back = KC.Kcorrect(filename=saved(c))
    far = KC.Kcorrect(responses=c.resp, templates=c.T, redshift_range=c.rng, nredshift=3, cosmo=FlatLambdaCDM(H0=50., Om0=0.9))
    lone = T.SED(wave=c.w.copy(), flux=c.f[0].copy())
    still = T.SED(wave=c.w.copy(), flux=c.f.copy(), interpolate=False)
    return [("Kcorrect", own, worked), ("Kcorrect from a file", back, worked), ("Kcorrect with another cosmology", far, worked),
            ("KcorrectSDSS", c.K2, worked), ("KcorrectGST", c.K4, worked), ("Kcorrect with interpolated templates", c.K3, worked),
            ("Template", c.T, templates), ("Template with interpolator", c.TI, templates), ("SED", c.sed, spectrum), ("one spectrum", lone, spectrum),
            ("SED without interpolator", still, spectrum), ("registered Response", f[c.resp[1]], response),
            ("Response from arrays", R.Response(wave=b.wave[::-1].copy(), response=b.resp[::-1].copy()), response)]


def saved(c):
    p = os.path.join(kc.scratch(), "c28-saved.fits")
    if not os.path.exists(p):
        c.K1.tofits(filename=p)
    return p


def response(r):
    wave = np.linspace(3000., 12000., 40)
    return curve(r) + [np.array(r.interp(r.wave[1:-1])), np.array(r.project(wave=wave, flux=1. + 0.1 * np.sin(wave / 500.))),
                       float(r.fwhm_low), float(r.fwhm_high), float(r.nwave), [str(x) for x in r.response_dtype().names]]


def worked(o):
    """What it is and what it gives"""
    n = len(o.responses)
    f = 1e-9 * (1. + (np.arange(2. * n) * 3 % 5).reshape(2, n))
    z = np.array([0.11, 0.37])
    c = o.fit_coeffs(redshift=z, maggies=f, ivar=4e19 / (1. + np.arange(n)) + 0. * f)
    return whole(o) + [c, o.absmag(redshift=z, maggies=f, ivar=1e19 + 0. * f, coeffs=c, band_shift=0.1), o.derived(redshift=z, coeffs=c, band_shift=0.1)]


def seen(o, look):
    return freeze(look(o)), type(o).__module__ + "." + type(o).__name__, sorted(x for x in vars(o) if not x.startswith("_"))


def shift(o, z):
    t = getattr(o, "templates", o)
    if hasattr(t, "set_redshift"):
        t.set_redshift(z)


def moved(o, look):
    """At another redshift, and back at z = 0"""
    shift(o, 0.7)
    r = seen(o, look)
    shift(o, 0.)
    return r, seen(o, look)


@check.harness(isolate=True)
def single(tier):
    """13 objects of every class (built, loaded, with another cosmology, with and without interpolators) at redshifts 0, 0.4 and -0.2, each copied by itself in
    chains of 1, 2 and 3 of {deepcopy, pickle protocols 2 to 5, another interpreter and back}: same class, attributes and numbers, here
    and in a freshly started interpreter, now and when redshifted later"""
    fresh = Fresh()
    c, want = pristine("float32")
    obs = [Op(x) for x in objects(c)]
    ways = [deepcopy] + [pickled(i) for i in range(2, 6)] + [there_and_back]

    def body(ch):
        op = ch.pick("object", obs)
        z = ch.pick("redshift", [0., 0.4, -0.2])
        shift(op[1], z)
        before = seen(op[1], op[2])
        o, what = op[1], "%s at redshift %s" % (op[0], z)
        for i in range(ch.pick("copies", [1, 2] if tier == "quick" else [1, 2, 3])):
            way = ch.pick("copy %d" % (i + 1), ways if i == 0 else WAYS)
            what += " > " + way.__name__
            o = way(o, fresh)
        where = ch.pick("where", ["here", "fresh interpreter"])
        what += " > looked at %s:" % where
        if where == "here":
            got, later = seen(o, op[2]), moved(o, op[2])
        else:
            try:
                got, later = (fresh(pickle.dumps(o), fn, op[2])[0] for fn in (seen, moved))
            except RuntimeError as e:
                need(False, what, str(e))
        need(same(before, got), what, "is", got, "not", before)
        want = moved(op[1], op[2])
        need(same(want[0], later[0]) and same(want[1], later[1]), what, "redshifted it is", later, "not", want)
        ch.checked()
        return op[0]
    return body


def same(a, b):
    return equal(a[0], b[0]) and a[1:] == b[1:]


def wipe(o, done=None):
    """Overwrite every array in an object"""
    done = set() if done is None else done
    if id(o) in done:
        return
    done.add(id(o))
    if isinstance(o, np.ndarray):
        scribble(o)
    elif isinstance(o, (list, tuple)):
        for x in o:
            wipe(x, done)
    elif isinstance(o, dict):
        for x in o.values():
            wipe(x, done)
    elif type(o).__module__.startswith(("kcorrect", "scipy.interpolate")):
        for k, x in list(getattr(o, "__dict__", {}).items()):
            wipe(x, done)


CHANGES = [Op(x) for x in CALLS] + [Op(x) for x in EVENTS] + [
    Op(("objects overwritten", lambda c: [wipe(k) for k in (c.K1, c.K2, c.K3, c.K4)])),
    Op(("templates and spectra overwritten", lambda c: [wipe(k) for k in (c.T, c.TI, c.sed)])),
    Op(("K1 loaded from a file", lambda c: c.K1.fromfits(filename=saved(c)))),
    Op(("lists emptied", lambda c: [x.clear() for k in (c.K1, c.K2, c.K3, c.K4) for x in {id(y): y for y in (
        k.responses, k.responses_out, k.responses_map)}.values()]))]


@check.harness(isolate=True)
def apart(tier):
    """objects copied together by {deepcopy, pickle}, then one of the two sides is put to one of 47 calls, 5 events or overwritten or loaded
    anew; the other side is unchanged and gives what it gave before in each of 18 calls"""
    c, want = pristine("float32")
    saved(c)

    def body(ch):
        way = ch.pick("copy", [deepcopy, pickled(5)])
        side = ch.pick("changed", ["original", "copy"])
        op = ch.pick("change", CHANGES)
        k = way(c, None)
        a, b = (c, k) if side == "original" else (k, c)
        call(a, op[1])
        what = "%s > %s of the %s:" % (way.__name__, op[0], side)
        for p in PROBES:
            b.unchanged(what)
            got = freeze(call(b, dict(CALLS)[p]))
            need(equal(want[p], got), what, "then", p, "of the other gave", got, "not", want[p])
        b.unchanged(what)
        ch.checked()
        return op[0]
    return body


@check.harness(isolate=True)
def worlds(tier):
    """four objects sharing templates, bands and argument arrays, as built, after use and after 3 events, copied together in chains of 1 and
    2 of {deepcopy, pickle protocols 2 and 5, pickle to a freshly started interpreter and back}; then any of the 47 calls here or in the
    fresh interpreter gives the same numbers and changes nothing"""
    fresh = Fresh()
    ws = {k: pristine(k) for k in (("float32",) if tier == "quick" else ("float32", "list", "strided float32"))}

    def body(ch):
        kind = ch.pick("arguments", sorted(ws))
        c, want = ws[kind]
        pre = ch.pick("before", PRE)
        pre[1](c)
        what = pre[0]
        n = 1 + ch.pick("copies - 1", [0, 1])
        for i in range(n):
            way = ch.pick("copy %d" % (i + 1), WAYS)
            what += " > " + way.__name__
            c = way(c, fresh)
        where = ch.pick("where", ["here", "fresh interpreter"])
        op = ch.pick("call", [Op(x) for x in CALLS if n == 1 or tier != "quick" or x[0] in PROBES])
        what += " > %s (%s):" % (op[0], where)
        try:
            got = called(c, op[0]) if where == "here" else fresh(pickle.dumps(c), called, op[0])[0]
        except RuntimeError as e:
            need(False, what, str(e))
        need(equal(want[op[0]], got), what, "gave", got, "not", want[op[0]])
        ch.checked()
        return op[0]
    return body
