"""C27 threads can compute with the same objects at the same time"""
import copy
import gc
import os

import numpy as np

from mc import sched
from mc.engine import Check, Violation, need

sched.install()
from mc import kc                                            # noqa: E402
from mc.interrupts import functions                          # noqa: E402
from mc.world import CALLS, KC, Ctx, at_rest, equal, freeze, kcorrect      # noqa: E402

check = Check("C27", assumptions=[
    "One thread runs at a time (the interpreter lock); scheduling points are every line of every kcorrect function and every lock operation, "
    "what numpy, scipy and astropy do in between is one step.",
    "Random draws are all 0.6, whichever thread makes them: threads share numpy's random stream, so which draw goes to which thread is not "
    "fixed.",
    "Each thread passes arrays of its own. No spectrum is redshifted by one thread while another one uses it."],
    rule="Executions are all schedules with at most the stated number of preemptions (switches away from a thread that could continue).")

calls = dict(CALLS)
COMPUTE = ("K1.fit_coeffs", "K1.fit_coeffs(one)", "K1.fit_coeffs(mc=2)", "K1.fit_coeffs(out of range)", "K2.fit_coeffs", "K2.fit_coeffs_asinh",
           "K4.fit_coeffs", "K1.reconstruct", "K1.reconstruct_out(band_shift)", "K1.kcorrect", "K2.kcorrect", "K1.absmag(all)",
           "K1.absmag(distance)", "K2.absmag", "K4.absmag", "K1.absmag_mc", "K2.absmag_mc", "K1.derived", "K2.derived(distance)", "K1.derived_mc",
           "bandpass.project(sed)", "bandpass.project(arrays)", "sdss_asinh_to_maggies", "sdss_ab_correct", "error_floor", "maggies2flambda",
           "K4.to_ab", "K1 wrong shape", "K1 beyond the grid")


def save(c):
    path = os.path.join(kc.scratch(), "c27-%d-%s.fits" % (os.getpid(), c.tag))
    c.K1.tofits(filename=path)
    o = KC.Kcorrect(filename=path)
    return [np.array(o.Amatrix(o.redshifts)), np.array(o.AmatrixOut(o.redshifts)), np.array(o.imap), list(o.responses),
            np.array(o.templates.restframe_flux), np.array(o.templates.m50)]


def construct(c):
    """A further object from the templates of K1 and K2 (which nobody else builds from at this time)"""
    o = KC.Kcorrect(templates=c.T, responses=c.resp, nredshift=2, redshift_range=[0.1, 0.9])
    return np.array(o.Amatrix(0.3)), np.float64(o.templates.redshift)


def own(c):
    t = kcorrect.template.Template(filename=c.path)
    o = KC.KcorrectSDSS(templates=t, nredshift=2, redshift_range=[0.1, 0.9])
    return np.array(o.Amatrix(0.3)), o.fit_coeffs(redshift=c.a["z"], maggies=c.a["m5"], ivar=c.a["w5"])


def reload(c):
    f = kcorrect.response.ResponseDict()
    f.load_response(c.resp[1], reload=True)
    return float(f[c.resp[1]].lambda_eff)


def redshifted(c):
    """Redshift a spectrum of one's own"""
    s = kcorrect.template.SED(wave=c.w.copy(), flux=c.f.copy())
    s.set_redshift(0.3)
    x = kcorrect.response.ResponseDict()[c.resp[0]].project(sed=s)
    return x, np.array(s.wave), np.array(s.flux)


FEW = ("K1.fit_coeffs", "K1.fit_coeffs(one)", "K1.fit_coeffs(mc=2)", "K2.fit_coeffs", "K2.fit_coeffs_asinh", "K1.reconstruct", "K2.kcorrect",
       "K1.absmag(all)", "K4.absmag", "K1.derived", "K2.derived(distance)", "bandpass.project(sed)", "bandpass.project(arrays)", "error_floor",
       "maggies2flambda", "K2.absmag_mc")
calls.update({"save": save, "new object from the same templates": construct, "own object": own,
              "reload of a response": reload, "own spectrum redshifted": redshifted})


class Name(str):
    @property
    def __name__(self):
        return str(self)


def outcome(c, name):
    try:
        return freeze(calls[name](c))
    except (ValueError, TypeError) as e:
        return ["raised", type(e).__name__]


def world():
    kc.NOISE.reset(lambda i: 0.6)
    kcorrect.response.ResponseDict().clear()
    one = Ctx("float32")
    b = Ctx("float32", other=True)
    two = copy.copy(one)
    two.a, two.n = b.a, b.n
    one.tag, two.tag = "one", "two"
    for c in functions(kcorrect):
        sched.instrument(c, lambda code: "line")
    want = {c.tag: {n: outcome(c, n) for n in calls} for c in (one, two)}
    one.attr = {k: one.attributes(getattr(one, k)) for k in ("K1", "K2", "K3", "K4")}
    two.attr = one.attr
    # collecting garbage closes files, which takes locks: only between executions
    gc.collect()
    gc.freeze()
    gc.disable()
    return one, two, want


def concurrently(ch, one, two, want, first, second):
    kc.NOISE.reset(lambda i: 0.6)
    s = sched.Scheduler(ch, limit=60000)
    got = {}

    def thread(c, name):
        def f():
            got[c.tag] = outcome(c, name)
        return f
    try:
        errs = s.run([thread(one, first), thread(two, second)])
    finally:
        gc.collect()
    what = "%s and %s at the same time:" % (first, second)
    for i, e in errs:
        raise Violation("%s thread %d raised %s: %s" % (what, i, type(e).__name__, e))
    for c, name in ((one, first), (two, second)):
        need(equal(want[c.tag][name], got[c.tag]), what, "thread", c.tag, "got", got[c.tag], "but alone", want[c.tag][name])
    one.unchanged(what)
    two.unchanged(what)
    return s


@check.harness(bound=1, timeout=60)
def computations(tier):
    """every two of 16 computations (thorough: of 29, in both roles) with the same four fitting objects, spectra and responses, each thread with
    arrays of its own: every line-level schedule with at most 1 preemption"""
    one, two, want = world()
    names = [Name(n) for n in (COMPUTE if tier != "quick" else FEW)]

    def body(ch):
        first = ch.pick("thread one", names)
        second = ch.pick("thread two", names[names.index(first):] if tier == "quick" else names)
        s = concurrently(ch, one, two, want, first, second)
        ch.checked()
        return "%s %s %d" % (first, second, s.steps)
    return body


@check.harness(bound=1, timeout=60)
def alongside(tier):
    """2 to 5 computations (thorough: all 29) while another thread saves one of the objects, builds a further one from the same templates
    or from its own, reloads a response, or redshifts a spectrum of its own: every line-level schedule with at most 1 preemption"""
    one, two, want = world()
    more = [Name(n) for n in ("save", "new object from the same templates", "own object", "reload of a response", "own spectrum redshifted")]

    def partners(n):
        return [Name(x) for x in (COMPUTE if tier != "quick" else ("K2.absmag", "bandpass.project(sed)") if n in ("save", "own object") else (
            "K1.fit_coeffs", "K2.absmag", "K1.absmag(all)", "K1.derived", "bandpass.project(sed)"))]

    def body(ch):
        first = ch.pick("thread one", more)
        second = ch.pick("thread two", partners(first))
        s = concurrently(ch, one, two, want, first, second)
        at_rest(one.T, "%s and %s at the same time" % (first, second))
        ch.checked()
        return "%s %s %d" % (first, second, s.steps)
    return body


@check.harness(bound=lambda tier: 2, timeout=60)
def twice(tier):
    """3 pairs of short computations (thorough: all pairs of 9): every line-level schedule with at most 2 preemptions"""
    one, two, want = world()
    few = [Name(n) for n in ("K1.fit_coeffs(one)", "K2.absmag", "K1.reconstruct", "K2.reconstruct(one)", "K1.kcorrect", "K2.fit_coeffs",
                             "sdss_ab_correct", "K4.to_ab", "bandpass.project(sed)")]
    pairs = [(few[0], few[0]), (few[7], few[7]), (few[8], few[8])] if tier == "quick" else [(a, b) for i, a in enumerate(few) for b in few[i:]]

    def body(ch):
        first, second = ch.pick("threads", pairs)
        s = concurrently(ch, one, two, want, first, second)
        ch.checked()
        return "%s %s %d" % (first, second, s.steps)
    return body
