"""C24 stellar model files are read completely and in order"""
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C24", assumptions=[
    "Files are text with 1221 wavelengths, then for every model six parameters and 1221 fluxes, all numbers readable in single precision; "
    "files cut inside a model are not explored."],
    rule="Executions are all combinations of numbers of models, layouts and number formats, each compared with the values written.")

NW = 1221
KEYS = ("modelno", "teff", "logg", "mh", "vturb", "xh")


def values(n, kind=0):
    """Wavelengths, and n models that differ in every number (but every third has the number of the one before)"""
    wave = np.float32(9.1 + 0.37 * np.arange(NW) + 1e-4 * np.arange(NW)**2 + kind)
    info = dict(modelno=np.array([(7919 * (u + (u % 3 != 2)) + kind) % 100003 for u in range(n)], dtype=np.int64),
                teff=np.float32([3500. + 1250. * ((u * 3) % 7) + u for u in range(n)]),
                logg=np.float32([-1.02 + 0.5 * ((u * 5) % 9) + 0.01 * u for u in range(n)]),
                mh=np.float32([-5. + 0.55 * ((u * 2) % 11) + 0.01 * u for u in range(n)]),
                vturb=np.float32([2. + 0.1 * u for u in range(n)]),
                xh=np.float32([0.7 + 0.001 * u for u in range(n)]))
    i = np.arange(NW)
    flux = np.float32([(u + 1) * 1e-5 * (1. + 0.3 * np.sin(0.01 * (u + 1) * i)) * 10.**(-3. * ((i + 100 * u) % NW) / NW) * (1. + 1e-4 * i) + kind * 1e-7
                       for u in range(n)]).reshape(n, NW)
    flux[:, 5::97] = 0.
    flux[:, 11::89] *= -1.
    flux[:, 17::83] *= 1e-20
    flux[:, 23::79] *= 1e20
    return wave, info, flux


FORMATS = dict(plain=lambda x: repr(float(x)), exponent=lambda x: "%.8E" % x, short=lambda x: ("%.9g" % x),
               padded=lambda x: "%+.9e" % x)


class Layout(tuple):
    @property
    def __name__(self):
        return self[0]


def per_line(k, sep=" ", end="\n"):
    def f(blocks):
        out = []
        for b in blocks:
            for i in range(0, len(b), k):
                out.append(sep.join(b[i:i + k]) + end)
        return "".join(out)
    return f


def flow(k, sep=" ", end="\n"):
    """Line breaks wherever they fall, not at block ends"""
    def f(blocks):
        t = [x for b in blocks for x in b]
        return end.join(sep.join(t[i:i + k]) for i in range(0, len(t), k))
    return f


def uneven(blocks):
    t = [x for b in blocks for x in b]
    out, i, k = [], 0, 1
    while i < len(t):
        out.append(" ".join(t[i:i + k]))
        i += k
        k = k % 13 + 1
    return "\n".join(out) + "\n"


def mixed(blocks):
    seps = [" ", "  ", "\t", " \t ", "\n", "\n\n", " \n", "\r\n", "\n   "]
    t = [x for b in blocks for x in b]
    return "".join(x + seps[(i * 7) % len(seps)] for i, x in enumerate(t))


LAYOUTS = [Layout(x) for x in (
    ("shipped (8 numbers a line, blocks on lines of their own)", per_line(8)), ("one number a line", flow(1)), ("all on one line", flow(10**9)),
    ("7 a line across blocks", flow(7)), ("1221 a line", per_line(1221)), ("1227 a line across blocks", flow(1227)),
    ("10 a line, wide spaces", per_line(10, "    ")), ("tabs", per_line(6, "\t")), ("CR LF", per_line(8, " ", "\r\n")),
    ("uneven lines", uneven), ("mixed white space", mixed), ("blank line between blocks", lambda b: "\n\n".join(" ".join(x) for x in b)),
    ("leading white space", lambda b: "\n \t\n" + per_line(5, "  ")(b)), ("no newline at the end", lambda b: per_line(8)(b).rstrip()),
    ("white space at the end", lambda b: per_line(8)(b) + "  \n\n \t\n"))]


def write(path, n, layout, fmt, kind=0):
    wave, info, flux = values(n, kind)
    f = FORMATS[fmt]
    blocks = [[f(x) for x in wave]]
    for u in range(n):
        blocks.append([str(int(info["modelno"][u]))] + [f(info[k][u]) for k in KEYS[1:]])
        blocks.append([f(x) for x in flux[u]])
    with open(path, "w", newline="") as fp:
        fp.write(layout[1](blocks))
    return wave, info, flux


def same(got, want, *what):
    info, wave, flux = got
    w, i, f = want
    need(np.shape(wave) == (NW,), *what, "wavelengths have shape", np.shape(wave))
    need(kc.close(wave, w, 2e-7), *what, "wavelengths differ at", lambda: np.nonzero(np.asarray(wave) != w)[0][:5])
    need(np.shape(flux) == f.shape, *what, "fluxes have shape", np.shape(flux), "not", f.shape)
    for u in range(len(f)):
        need(kc.close(flux[u], f[u], 3e-7), *what, "fluxes of model", u, "differ at", lambda: np.nonzero(np.asarray(flux[u]) != f[u])[0][:5])
    for k in KEYS:
        need(k in info, *what, k, "is missing")
        need(np.shape(info[k]) == (len(f),) and kc.close(info[k], i[k], 2e-7), *what, k, "is", info[k], "not", i[k])


@check.harness()
def files(tier):
    """1 to 6 (thorough: 12) models, 15 layouts (numbers per line, white space, line ends), 4 number formats"""
    ns = (1, 2, 3, 4, 6) if tier == "quick" else tuple(range(1, 13))

    def body(ch):
        n = ch.pick("models", ns)
        layout = ch.pick("layout", LAYOUTS)
        fmt = ch.pick("numbers", list(FORMATS))
        path = os.path.join(kc.scratch(), "c24-%d.ori" % os.getpid())
        want = write(path, n, layout, fmt)
        got = kcorrect.utils.read_basel(path)
        os.unlink(path)
        same(got, want, "%d models, %s, %s:" % (n, layout[0], fmt))
        ch.checked(n + 1)
        return "%d %s %s" % (n, layout[0], fmt)
    return body


@check.harness()
def large(tier):
    """files of every number of models up to 40 (thorough: 130), and of 257, 467, 468 and 500 (the full libraries have 467)"""
    ns = list(range(1, 41 if tier == "quick" else 131)) + [257, 467, 468, 500]

    def body(ch):
        n = ch.pick("models", ns)
        path = os.path.join(kc.scratch(), "c24-%d.ori" % os.getpid())
        want = write(path, n, LAYOUTS[0], "short")
        got = kcorrect.utils.read_basel(filename=path)
        os.unlink(path)
        same(got, want, "%d models:" % n)
        ch.checked(n + 1)
        return str(n)
    return body


@check.harness()
def histories(tier):
    """every sequence of 3 (thorough: 4) readings of three files of 1, 2 and 4 models and the shipped Sun and Vega; what was read before is
    kept and neither it nor what is read later changes, even if the caller overwrites it"""
    depth = 3 if tier == "quick" else 4
    d = kc.scratch()
    want = {}
    for n in (1, 2, 4):
        want[os.path.join(d, "c24h%d.ori" % n)] = write(os.path.join(d, "c24h%d.ori" % n), n, LAYOUTS[9], "plain", kind=n)
    for p in (ref.SUN, ref.VEGA):
        w, models = ref.parse_basel(p)
        want[p] = (np.float32(w), {k: np.float32([m[0][i] for m in models]) for i, k in enumerate(KEYS)}, np.float32([m[1] for m in models]))
        need(len(models) == 1, "models in", p)

    def body(ch):
        held = []
        for s in range(depth):
            p = ch.pick("file %d" % s, list(want))
            got = kcorrect.utils.read_basel(p)
            same(got, want[p], os.path.basename(p), "at step", s)
            if ch.flag("overwrite result %d" % s):
                for a in [got[1], got[2]] + list(got[0].values()):
                    a[...] = 7
            else:
                held.append((p, got))
            if ch.fresh:
                for q, g in held:
                    same(g, want[q], os.path.basename(q), "read earlier, after step", s)
                ch.checked()
        return str([os.path.basename(p) for p, g in held])
    return body


@check.harness()
def stars(tier):
    """the Sun and Vega as responses see them, for every shipped response (thorough) or every 6th: solar magnitude and Vega offset from
    the reading of the reference"""
    names = sorted(f[:-4] for f in os.listdir(os.path.join(ref.DATA, "responses")) if f.endswith(".dat"))
    good = []
    for n in names:
        try:
            ref.band(n)
            good.append(n)
        except ref.ParseError:
            pass
    if tier == "quick":
        good = good[::6]

    def body(ch):
        n = ch.pick("response", good)
        R = kcorrect.response.Response(filename=n + ".dat")
        for attr, star in (("solar_magnitude", "sun"), ("vega2ab", "vega")):
            want = ref.star_magnitude(ref.band(n), star)
            got = getattr(R, attr)
            if want is None:
                need(got is None, n, attr, got, "should be None")
            else:
                need(got is not None and abs(float(got) - want) < 2e-3, n, attr, got, "not", want)
        ch.checked(2)
        return "%s %s" % (R.solar_magnitude, R.vega2ab)
    return body
