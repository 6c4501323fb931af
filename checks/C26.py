"""C26 an interrupted call leaves no trace"""
import os
import pickle
import shutil

import numpy as np

from mc import kc, ref
from mc.engine import Check, Violation, need
from mc.interrupts import Interrupts
from mc.world import CALLS, KC, at_rest, call, curve, equal, freeze, kcorrect, pristine, spectrum, templates, whole

check = Check("C26", assumptions=[
    "Interruptions arrive between statements of kcorrect's own functions (between two of its statements everything that numpy, scipy and "
    "astropy do is one step), and not in its cleaning-up (finally and except blocks, ends of with blocks).",
    "A Monte Carlo call repeated after an interruption gets the same scripted draws again.",
    "Each execution runs in its own process, starting from the same freshly built objects."],
    rule="Executions are all (call, statement, exception) with the exception raised just before that statement, in every one of the "
         "statements the call goes through.")

T = kcorrect.template
R = kcorrect.response


def tmp(tag=""):
    return os.path.join(kc.scratch(), "c26-%d%s.fits" % (os.getpid(), tag))


def registry():
    return R.ResponseDict()


_star = {}


def complete(name, r):
    """A response is all there"""
    try:
        b = ref.band(name)
    except OSError:
        b = ref.band(os.path.join(kc.scratch(), "c26dir", name))
    need(r.wave is not None and kc.close(r.wave, b.wave, 1e-6) and kc.close(r.response, b.resp, 1e-6, atol=1e-6) and r.nwave == len(b.wave),
         name, "is in the registry with wavelengths", lambda: r.wave)
    need(r.interp is not None and kc.close(r.interp(b.wave[1:-1]), b.resp[1:-1], 1e-5, atol=1e-6), name, "has no interpolator")
    need(r.lambda_eff is not None and kc.close(r.lambda_eff, b.lambda_eff(), 1e-5), name, "has lambda_eff", lambda: r.lambda_eff)
    for a in ("fwhm", "fwhm_low", "fwhm_high"):
        need(getattr(r, a) is not None, name, "has no", a)
    for a, star in (("solar_magnitude", "sun"), ("vega2ab", "vega")):
        if (name, star) not in _star:
            _star[name, star] = ref.star_magnitude(b, star)
        m, got = _star[name, star], getattr(r, a, "missing")
        need(got == m if m is None or isinstance(got, str) or got is None else abs(float(got) - m) < 1e-3, name, "has", a, lambda: got)


def loaded(c, name, **kw):
    registry().load_response(name, **kw)
    return curve(registry()[name])


def listed(c):
    d = os.path.join(kc.scratch(), "c26dir")
    got = sorted(R.all_responses(response_dir=d, check_validity=True))
    return got, [curve(registry()[n]) for n in got]


def save(c):
    c.K1.tofits(filename=tmp())
    return whole(KC.Kcorrect(filename=tmp()))


def leftover_save(c, what):
    """What a save was interrupted in is refused or complete"""
    if os.path.exists(tmp()):
        try:
            o = KC.Kcorrect(filename=tmp())
        except Exception:                                   # noqa: BLE001
            return
        need(equal(freeze(whole(c.K1)), freeze(whole(o))), what, "the file left over is read as another object")


def load_saved(c):
    return whole(KC.Kcorrect(filename=c.saved))


def reload_saved(c):
    c.K3.fromfits(filename=c.saved)
    return whole(c.K3)


def reload_after(c, what):
    c.K3.fromfits(filename=c.saved)
    c.attr["K3"] = c.attributes(c.K3)


def redshift_sed(c):
    c.sed.set_redshift(0.4)
    r = spectrum(c.sed)
    c.sed.set_redshift(0.)
    return r


def rest_sed(c, what):
    c.sed.set_redshift(0.)
    at_rest(c.sed, what)


def redshift_templates(c):
    c.TI.set_redshift(0.6)
    return spectrum(c.TI)


def append(c):
    c.sed.tofits(filename=tmp("s"))
    c.sed.tofits(filename=tmp("s"), ext="SECOND", clobber=False)
    return spectrum(T.SED(filename=tmp("s"))), spectrum(T.SED(filename=tmp("s"), ext="SECOND"))


def append_response(c):
    r = registry()[c.resp[0]]
    r.tofits(filename=tmp("r"))
    r.tofits(filename=tmp("r"), ext="SECOND", clobber=False)
    x = R.Response()
    x.fromfits(filename=tmp("r"), ext="SECOND")
    return curve(x)


def own_response(c):
    b = ref.band(c.resp[2])
    return curve(R.Response(wave=b.wave[::-1].copy(), response=b.resp[::-1].copy()))


def write_templates(c):
    c.T.tofits(filename=tmp("t"))
    return templates(T.Template(filename=tmp("t")))


def own_objects(c):
    t = T.Template(filename=c.path)
    o = KC.KcorrectSDSS(templates=t, redshift_range=[0., 0.5], nredshift=2)
    return whole(o)


def wide_object(c):
    gst = ["galex_FUV", "galex_NUV"] + c.sdss + ["twomass_J", "twomass_H", "twomass_Ks"]
    return whole(KC.KcorrectGST(templates=c.TI, responses=gst, redshift_range=[0., 0.5], nredshift=2))


def basel(c):
    info, wave, flux = kcorrect.utils.read_basel(c.basel)
    return dict(info), wave, flux


# what is interrupted besides the calls of mc/world.py: name, call, what is looked at or put right afterwards
MORE = [
    ("first use of a response", lambda c: loaded(c, c.fresh), None),
    ("reload of a response", lambda c: loaded(c, c.resp[1], reload=True), None),
    ("listing with validity check", listed, None),
    ("own response from a file", lambda c: curve(R.Response(filename=c.resp[0] + ".dat")), None),
    ("own response from arrays", own_response, None),
    ("spectrum from arrays", lambda c: spectrum(T.SED(wave=c.w.copy(), flux=c.f.copy())), None),
    ("templates from a file", lambda c: templates(T.Template(filename=c.path, interpolate=True)), None),
    ("templates written", write_templates, None),
    ("spectra written and appended", append, None),
    ("responses written and appended", append_response, None),
    ("spectrum redshifted and back", redshift_sed, rest_sed),
    ("templates redshifted", redshift_templates, None),
    ("save", save, leftover_save),
    ("load of a saved object", load_saved, None),
    ("load onto an existing object", reload_saved, reload_after),
    ("SDSS object", own_objects, None),
    ("GALEX-SDSS-2MASS object", wide_object, None),
    ("stellar model file", basel, None),
]
PROBES = ("K1.fit_coeffs", "K1.fit_coeffs(mc=2)", "K2.fit_coeffs", "K4.fit_coeffs", "K1.absmag(all)", "K2.absmag", "K4.absmag", "K1.absmag_mc",
          "K1.derived", "K2.kcorrect", "bandpass.project(sed)", "bandpass.project(arrays)", "maggies2flambda", "sdss_ab_correct", "error_floor",
          "new object")


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            with os.fdopen(w, "wb") as fp:
                try:
                    pickle.dump(fn(), fp)
                except Exception as e:                      # noqa: BLE001
                    pickle.dump(e, fp)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        x = pickle.loads(fp.read())
    os.waitpid(pid, 0)
    if isinstance(x, Exception):
        raise x
    return x


INT = None


def world(other=()):
    """Objects, wanted results, numbers of statements of each call"""
    global INT
    c, want = pristine("float32")
    c.fresh = kc.bands("b5")[0]
    c.saved = tmp("saved")
    c.K1.tofits(filename=c.saved)
    d = os.path.join(kc.scratch(), "c26dir")
    os.makedirs(d, exist_ok=True)
    for n in ("b1", "b2"):
        shutil.copy(kc.bands(n)[0] + ".dat", os.path.join(d, "l_%s.dat" % n))
    with open(os.path.join(d, "bad.dat"), "w") as fp:
        fp.write("nothing\n")
    c.basel = os.path.join(kc.scratch(), "c26.basel")
    with open(c.basel, "w") as fp:
        fp.write(" ".join("%.1f" % (9. + i) for i in range(1221)) + "\n")
        for m in range(2):
            fp.write(" %d %d. 4.0 0.1 2.0 0.7\n" % (m + 1, 3000 + m) + " ".join("%.3e" % (1e-5 * (1 + (i * (m + 2)) % 7)) for i in range(1221)) + "\n")
    c.TI.set_redshift(0.)
    if INT is None:
        INT = Interrupts(kcorrect)
    c.held = dict(registry())
    ops = [Op(x + (None,)) for x in CALLS] + [Op(x) for x in MORE]
    count = {}
    for op in ops:
        def dry(op=op):
            INT.start()
            try:
                r = call(c, op[1])
            finally:
                n = INT.n
                INT.stop()
            return n, freeze(r)
        count[op[0]], r = forked(dry)
        if op[0] not in want:
            want[op[0]] = r
    return c, want, ops, count


def interrupt(c, op, at, exc):
    """Run a call interrupted before its at-th statement; where that was, and the exception that came out (or None)"""
    got = None
    INT.start(at, exc)
    try:
        call(c, op[1])
    except (Exception, KeyboardInterrupt) as e:             # noqa: BLE001
        got = e
    where = INT.where
    INT.stop()
    return where, got


def look(c, want, op, what, probes):
    """Everything is as it was, and works"""
    if op[2] is not None:
        op[2](c, what)
    f = registry()
    for n, r in c.held.items():
        need(n in f, what, n, "is no longer in the registry")
        need(f[n] is r or op[0] in ("reload of a response", "bandpass reloaded"), what, "another response is registered as", n)
    for n in f:
        complete(n, f[n])
    c.unchanged(what)
    calls = dict((x[0], x[1]) for x in CALLS)
    for p in probes:
        got = freeze(call(c, calls[p]))
        need(equal(want[p], got), what, "then", p, "gave", got, "not", want[p])
    c.unchanged(what)
    got = freeze(call(c, op[1]))
    need(equal(want[op[0]], got), what, "repeated it gave", got, "not", want[op[0]])
    for n in f:
        complete(n, f[n])


def body_for(c, want, ops, count, probes, excs):
    def body(ch):
        op = ch.pick("call", ops)
        at = ch.pick("statement", range(count[op[0]]))
        exc = ch.pick("exception", excs if not op[0].startswith("listing") else excs[:1])
        where, got = interrupt(c, op, at, exc)
        what = "%s interrupted (%s) at %s:" % (op[0], exc.__name__, where)
        ch.note(what)
        need(where is not None, op[0], "did not reach its statement", at)
        need(got is not None, what, "returned as if nothing had happened")
        need(exc is not KeyboardInterrupt or isinstance(got, KeyboardInterrupt), what, "raised", repr(got), "instead")
        look(c, want, op, what, probes)
        ch.checked()
        return op[0]
    return body


@check.harness(isolate=True, timeout=40)
def interrupted(tier):
    """65 calls (fits, Monte Carlo, reconstructions, K-corrections, absolute magnitudes, derived quantities, constructions, saves, loads,
    reloads, listings, reading and writing of spectra, templates and responses, conversions, rejected requests) interrupted by
    KeyboardInterrupt (thorough: or MemoryError) before every one of their statements: the exception comes out, objects, arrays, templates
    and registry are unchanged, registered responses complete, and the same and 16 other calls give what they give without interruption"""
    c, want, ops, count = world()
    return body_for(c, want, ops, count, PROBES, (KeyboardInterrupt,) if tier == "quick" else (KeyboardInterrupt, MemoryError))
