"""C29 plots show the chosen spectra as they are"""
import itertools

import matplotlib
import numpy as np

from mc import kc
from mc.engine import Check, need

kcorrect = kc.load()
matplotlib.use("Agg")
import matplotlib.pyplot as plt                             # noqa: E402

T = kcorrect.template
check = Check("C29", assumptions=[
    "What is on the axes is read from matplotlib's lines and limits (not from pixels). Colours, widths, labels and the order of lines are "
    "free; a spectrum without any positive flux may have an empty line or none.",
    "Wavelength limits enclose at least one positive flux of a chosen spectrum."],
    rule="Executions are all (object, redshift, choice of spectra, wavelength limits) and all sequences of two plots on the same axes.")

OBJ = ["plain", "zeros and negatives", "template set", "one spectrum", "descending wavelengths", "binary image", "very faint", "very bright"]


def make(kind):
    wave = np.linspace(2000., 9000., 12)
    flux = np.array([1. + 0.1 * np.arange(12), 5. - 0.3 * np.arange(12), 2. + np.cos(np.arange(12.))])
    if kind == "template set":
        return T.Template(filename=kc.template_file(3, 64))
    if kind == "zeros and negatives":
        flux[0, ::3] = 0.
        flux[1, 4:6] = -1.
        flux[2] = -flux[2]
        flux[2, 7:] *= -1e-8
    if kind == "very faint":
        flux *= np.array([[1e-36], [1e-33], [1e-30]])
    if kind == "very bright":
        flux *= np.array([[1e30], [1e27], [1e20]])
    if kind == "one spectrum":
        flux = flux[1]
    if kind == "descending wavelengths":
        wave, flux = wave[::-1].copy(), flux[:, ::-1].copy()
    s = T.SED(wave=wave.astype(np.float32), flux=flux.astype(np.float32))
    s.binimage = kind == "binary image"
    return s


def chosen(n, longest):
    """Choices of spectra: what is given, indices meant"""
    yield "all", None, list(range(n))
    for i in range(-n, n):
        yield "%d" % i, i, [i % n]
        yield "int32 %d" % i, np.int32(i), [i % n]
    for k in range(1, longest + 1):
        for x in itertools.product(range(n), repeat=k):
            yield "list %s" % (x,), list(x), list(x)
            yield "array %s" % (x,), np.array(x), list(x)


LIMITS = [None, [3000., 6000.], (2500., 20000.), np.array([1000., 8000.], dtype=np.float32), [4000., 9500.]]


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def expected(s, want):
    w, f = np.float64(s.wave), np.float64(s.flux)
    r = []
    for i in want:
        ok = f[i] > 0.
        r.append((np.log10(w[ok]), np.log10(w[ok] * f[i][ok])))
    return r


def match(lines, want, what):
    """The same curves, in any order"""
    got = [(np.float64(x.get_xdata()), np.float64(x.get_ydata())) for x in lines]
    got = [x for x in got if len(x[0])]
    want = [x for x in want if len(x[0])]
    need(len(got) == len(want), what, "has", len(got), "lines, not", len(want))
    left = list(got)
    for x, y in want:
        for k, (gx, gy) in enumerate(left):
            if len(gx) == len(x) and np.allclose(gx, x, rtol=0., atol=2e-6) and np.allclose(gy, y, rtol=0., atol=1e-5):
                del left[k]
                break
        else:
            need(False, what, "does not have the line", x, y, "but", got)


def limits(ax, s, want, lim, what):
    if lim is None:
        return
    lim = np.float64(lim)
    need(np.allclose(sorted(ax.get_xlim()), np.log10(lim), atol=1e-5), what, "shows wavelengths", ax.get_xlim(), "not", np.log10(lim))
    w, f = np.float64(s.wave), np.float64(s.flux)
    inside = (w > lim[0]) & (w < lim[1])
    y = (w * f)[want][:, inside]
    y = np.log10(y[y > 0.])
    lo, hi = sorted(ax.get_ylim())
    need(lo <= y.min() and hi >= y.max(), what, "cuts off fluxes from", y.min(), "to", y.max(), "showing", (lo, hi))
    need(lo > y.min() - 0.5 and hi < y.max() + 0.5, what, "shows", (lo, hi), "for fluxes from", y.min(), "to", y.max())


def usable(s, want, lim):
    if lim is None:
        return True
    inside = (s.wave > lim[0]) & (s.wave < lim[1])
    return bool(np.any(s.flux[want][:, inside] > 0.))


def state(s):
    return [np.array(x) for x in (s.wave, s.flux, s.restframe_wave, s.restframe_flux)] + [float(s.redshift), int(s.nsed), int(s.nwave)]


def draw(s, op, lim, what):
    before = state(s)
    given = None if op[1] is None else np.array(op[1])
    keep = None if lim is None else np.array(lim)
    s.plot(indx=op[1], **({} if lim is None else dict(wavelim=lim)))
    need(all(np.array_equal(a, b) for a, b in zip(before, state(s))), what, "changed the spectra")
    need(given is None or np.array_equal(given, op[1]), what, "changed the caller's indices")
    need(keep is None or np.array_equal(keep, lim), what, "changed the caller's limits")


@check.harness()
def single(tier):
    """8 kinds of spectra x 3 redshifts x every choice of spectra (all, each index, negative, numpy integer, every list and array of up to 2
    (thorough: 4) indices, repeats included) x 5 wavelength limits (none, lists, tuple, array)"""
    longest = 2 if tier == "quick" else 4

    def body(ch):
        kind = ch.pick("object", OBJ)
        s = make(kind)
        z = ch.pick("redshift", [0., 0.4, -0.1])
        s.set_redshift(z)
        op = ch.pick("spectra", [Op(x) for x in chosen(s.nsed, longest)])
        lim = LIMITS[ch.pick("limits", range(len(LIMITS)))]
        if not usable(s, op[2], lim):
            return None
        plt.close("all")
        what = "%s at z=%s, spectra %s, limits %s:" % (kind, z, op[0], lim)
        draw(s, op, lim, what)
        need(len(plt.get_fignums()) == 1, what, "made", len(plt.get_fignums()), "figures")
        ax = plt.gca()
        match(ax.get_lines(), expected(s, op[2]), what)
        limits(ax, s, op[2], lim, what)
        ch.checked()
        return kind
    return body


@check.harness()
def overlaid(tier):
    """two plots of any two of the objects at any redshifts on the same axes: both are there"""
    def body(ch):
        plt.close("all")
        fig, ax = plt.subplots()
        want, what = [], []
        for i in range(2):
            kind = ch.pick("object %d" % (i + 1), OBJ)
            s = make(kind)
            z = ch.pick("redshift %d" % (i + 1), [0., 0.4])
            s.set_redshift(z)
            op = ch.pick("spectra %d" % (i + 1), [Op(x) for x in (("all", None, list(range(s.nsed))), ("last", s.nsed - 1, [s.nsed - 1]))])
            lim = LIMITS[ch.pick("limits %d" % (i + 1), [0, 2])]
            if not usable(s, op[2], lim):
                return None
            what.append("%s at z=%s, spectra %s, limits %s" % (kind, z, op[0], lim))
            draw(s, op, lim, what[-1])
            want += expected(s, op[2])
        need(plt.gca() is ax and len(plt.get_fignums()) == 1, what, "did not draw on the current axes")
        match(ax.get_lines(), want, " > ".join(what) + ":")
        limits(ax, s, op[2], lim, " > ".join(what) + ":")
        ch.checked()
        return what[-1]
    return body
