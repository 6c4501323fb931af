"""C18 solver failures are retried and never turn into results"""
import numpy as np

from mc import kc
from mc.common import build
from mc.engine import Check, Violation, need

kc.patch_noise()
kc.patch_solver()
kcorrect = kc.load()
check = Check("C18", assumptions=[
    "scipy.optimize.nnls is replaced, before kcorrect is imported, by the same solver with a difficulty chosen per problem (matrix and "
    "vector): solved at once, solved only with a larger iteration budget than the default, or never (RuntimeError as scipy raises).",
    "Random draws are scripted."],
    rule="Executions are all assignments of a difficulty to every distinct solve of a call.")

SDSS = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]


def noise(i):
    return (i * 0.37) % 3. - 1.5


def quiet():
    kc.SOLVER.reset(None)
    kc.NOISE.reset(noise)


def attempt(fn, difficulty):
    """(result or None, error or None, difficulties given out)"""
    given = []

    def d(i, key):
        given.append(difficulty(i))
        return given[-1]
    kc.SOLVER.reset(d)
    kc.NOISE.reset(noise)
    try:
        return fn(), None, given
    except (Violation, AssertionError):
        raise
    except Exception as e:                                  # noqa: BLE001
        return None, e, given
    finally:
        kc.SOLVER.difficulty = None


def parts(x):
    return [np.asarray(v, dtype=np.float64) for v in (x if isinstance(x, tuple) else (x,))]


def judge(got, err, given, want, what):
    if 2 in given:
        need(err is not None, what, "a solve failed for good, but a result came back:", lambda: got)
        return
    need(err is None, what, "raised", lambda: repr(err), "although every retry succeeds")
    a, b = parts(got), parts(want)
    need(len(a) == len(b), what, "returned", len(a), "arrays")
    for x, y in zip(a, b):
        need(x.shape == y.shape and kc.close(x, y, 1e-6, atol=1e-12 * np.abs(y).max(initial=0.)), what, "result", x,
             "differs from that without failures", y)


def catalogue(k, m, n, far=None):
    nb = len(m.responses)
    i = np.arange(n * nb).reshape(n, nb)
    # different at every object, so that no two solves are the same problem
    f = 1e-9 * (1. + (i * 5) % 7 + 0.01 * i) * np.where(i % 4 == 1, -0.8, 1.)
    w = 1e18 * (1. + i % 3 + 0.01 * i)
    z = m.lo + (m.hi - m.lo) * (0.1 + 0.8 * np.arange(n) / max(n, 2))
    if far is not None:
        z[far] = m.hi + 2.
    return np.float32(z), np.float32(f), np.float32(w)


def objects():
    return [build(("b2", "b3", "b4"), nt=3, rng=(0., 1.), n=6), build(("b3",), nt=1, rng=(0., 1.), n=4),
            build(SDSS, nt=2, rng=(0., 0.5), n=3, cls=kcorrect.kcorrect.KcorrectSDSS)]


@check.harness()
def single_fits(tier):
    """three kinds of object; catalogues of 1 to 4 (thorough: 6) objects, as an array or one object on its own, optionally one of them out
    of the redshift range: every pattern of easy, hard and impossible solves"""
    objs = objects()
    top = 4 if tier == "quick" else 6

    def body(ch):
        k, m = objs[ch.pick("object", range(3))]
        scalar = ch.flag("scalar")
        n = 1 if scalar else ch.pick("rows", range(1, top + 1))
        far = ch.pick("out of range", [None] + ([0] if scalar else list({0, n - 1})))
        z, f, w = catalogue(k, m, n, far)
        args = dict(redshift=z[0], maggies=f[0], ivar=w[0]) if scalar else dict(redshift=z, maggies=f, ivar=w)
        quiet()
        want = k.fit_coeffs(**args)
        got, err, given = attempt(lambda: k.fit_coeffs(**args), lambda i: ch.pick("solve %d" % i, (0, 1, 2)))
        judge(got, err, given, want, "n=%d far=%s solves=%s" % (n, far, given))
        # the object still works
        quiet()
        judge(k.fit_coeffs(**args), None, [], want, "afterwards:")
        ch.checked(2)
        return "%s" % given
    return body


@check.harness()
def monte_carlo(tier):
    """as above with 1 to 3 (thorough: 4) Monte Carlo sets and 1 or 2 objects: every pattern over best fits and draws"""
    objs = objects()
    top = 3 if tier == "quick" else 4

    def body(ch):
        k, m = objs[ch.pick("object", range(3))]
        scalar = ch.flag("scalar")
        n = 1 if scalar else ch.pick("rows", (1, 2))
        mc = ch.pick("mc", range(1, top + 1))
        if n * (1 + mc) > (6 if tier == "quick" else 8):
            return None
        far = ch.pick("out of range", (None, 0)) if n == 2 else None
        z, f, w = catalogue(k, m, n, far)
        args = dict(redshift=z[0], maggies=f[0], ivar=w[0], mc=mc) if scalar else dict(redshift=z, maggies=f, ivar=w, mc=mc)
        quiet()
        want = k.fit_coeffs(**args)
        got, err, given = attempt(lambda: k.fit_coeffs(**args), lambda i: ch.pick("solve %d" % i, (0, 1, 2)))
        judge(got, err, given, want, "n=%d mc=%d solves=%s" % (n, mc, given))
        quiet()
        judge(k.fit_coeffs(**args), None, [], want, "afterwards:")
        ch.checked(2)
        return "%s" % given
    return body


@check.harness(bound=2)
def larger(tier):
    """catalogues of 8, 16 and 40 objects without and with a Monte Carlo set: every pattern with at most 2 solves that are not easy"""
    objs = objects()

    def body(ch):
        k, m = objs[ch.pick("object", range(2))]
        n, mc = ch.pick("size", ((8, 0), (8, 1), (16, 0)) if tier == "quick" else ((8, 0), (8, 1), (16, 0), (40, 0), (16, 1), (8, 3)))
        z, f, w = catalogue(k, m, n)
        args = dict(redshift=z, maggies=f, ivar=w, mc=mc)
        quiet()
        want = k.fit_coeffs(**args)
        got, err, given = attempt(lambda: k.fit_coeffs(**args), lambda i: ch.pick("solve %d" % i, (0, 1, 2), costs=(0, 1, 1)))
        judge(got, err, given, want, "n=%d mc=%d solves=%s" % (n, mc, given))
        ch.checked()
        return "%s" % given
    return body


@check.harness()
def asinh(tier):
    """fits to asinh magnitudes: every pattern over catalogues of 1 to 4 objects"""
    k, m = objects()[2]

    def body(ch):
        n = ch.pick("rows", (1, 2, 3, 4))
        scalar = ch.flag("scalar") if n == 1 else False
        i = np.arange(n * 5).reshape(n, 5)
        a = dict(redshift=np.float32(0.05 + 0.1 * np.arange(n)), mag=18. + 0.1 * ((i * 3) % 7) + 0.01 * i, mag_err=0.02 + 0.001 * i,
                 extinction=0.1 + 0.001 * i)
        if scalar:
            a = {key: v[0] for key, v in a.items()}
        quiet()
        want = k.fit_coeffs_asinh(**a)
        got, err, given = attempt(lambda: k.fit_coeffs_asinh(**a), lambda i: ch.pick("solve %d" % i, (0, 1, 2)))
        judge(got, err, given, want, "n=%d solves=%s" % (n, given))
        ch.checked()
        return "%s" % given
    return body


@check.harness()
def histories(tier):
    """every sequence of 3 (thorough: 4) fits, each with every pattern over its two solves: failures of one call leave the next alone"""
    objs = objects()[:2]
    depth = 3 if tier == "quick" else 4

    def body(ch):
        seen = []
        for step in range(depth):
            k, m = objs[ch.pick("object %d" % step, (0, 1))]
            z, f, w = catalogue(k, m, 2)
            quiet()
            args = dict(redshift=z, maggies=f, ivar=w)
            want = k.fit_coeffs(**args)
            got, err, given = attempt(lambda: k.fit_coeffs(**args), lambda i: ch.pick("call %d solve %d" % (step, i), (0, 1, 2)))
            seen.append(given)
            if ch.fresh:
                judge(got, err, given, want, "solves=%s" % seen)
                ch.checked()
        return "%s" % seen
    return body
