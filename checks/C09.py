"""C09 error floors only lower inverse variances, to exactly the floor"""
import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
floor_ = kcorrect.utils.error_floor
check = Check("C09", assumptions=["Inverse variances are floating-point arrays or lists; compared to 1e-6 (1e-5 in single precision)."],
              rule="Executions are all combinations of the alphabets of each harness.")

FLUX = (1., -3., 0., 2e-9, -4e-10)
FRAC = ("above", "below", "far below", "at", "zero", "negative")   # fractional error relative to the floor, or ivar


def ivar(kind, f, fl):
    a = abs(f) if f != 0 else 1.
    fl = fl or 0.05
    if kind == "zero":
        return 0.
    if kind == "negative":
        return -1. / a**2
    frac = dict(above=1.7 * fl, below=0.6 * fl, at=fl)
    frac["far below"] = 1e-3 * fl
    return 1. / (frac[kind] * a)**2


def judge(fl, f, w, got, rtol, what):
    f, w, got = (np.atleast_2d(np.asarray(x, dtype=np.float64)) for x in (f, w, got))
    need(got.shape == w.shape, what, "shape", got.shape)
    for i in range(len(f)):
        for b in range(len(fl)):
            want = ref.floor_ivar(fl[b], f[i, b], w[i, b])
            need(abs(got[i, b] - want) <= rtol * abs(want), what, "object %d band %d floor=%s flux=%s ivar=%s became %s, should be %s"
                 % (i, b, fl[b], f[i, b], w[i, b], got[i, b], want))


@check.harness()
def one_object(tier):
    """every pattern of flux and of inverse-variance regime over 2 (thorough: 3) bands with several floors, alone and as a catalogue row; idempotence"""
    nb = 2 if tier == "quick" else 3
    floors = ([0.05, 0.2, 0.02], [0.02, 0.02, 0.02], [1., 1e-3, 0.3], [0., 0.1, 0.02], [0.1, 0., 0.3], [2., 0.05, 30.])

    def body(ch):
        fl = ch.pick("floors", floors)[:nb]
        f = [ch.pick("flux %d" % b, FLUX) for b in range(nb)]
        kinds = [ch.pick("error %d" % b, FRAC) for b in range(nb)]
        w = [ivar(k, x, q) for k, x, q in zip(kinds, f, fl)]
        for dt, rt in ((np.float64, 1e-6), (np.float32, 1e-5)):
            F, W = np.array(f, dtype=dt), np.array(w, dtype=dt)
            got = floor_(floor=np.array(fl), maggies=F, ivar=W)
            judge(fl, F, W, got, rt, "single")
            need(np.array_equal(F, np.array(f, dtype=dt)) and np.array_equal(W, np.array(w, dtype=dt)), "input modified")
            judge(fl, F, np.array(got), floor_(floor=np.array(fl), maggies=F, ivar=got), rt, "twice")
            F2, W2 = np.stack([F[::-1], F, -F]), np.stack([W * 0.1, W, W])
            judge(fl, F2, W2, floor_(floor=fl, maggies=F2, ivar=W2), rt, "catalogue")
            ch.checked(3)
        return "%s %s" % (np.sign(f), kinds)
    return body


@check.harness()
def catalogues(tier):
    """catalogues of 1 to 4 objects with every combination of error regimes per object (1 band) and of objects (3 bands),
    number of objects equal to and different from the number of bands, every container"""
    def body(ch):
        nb = ch.pick("bands", (1, 3, 5))
        n = ch.pick("objects", (1, 2, 3, 4, 5))
        fl = (np.array(ch.pick("floors", ([0.03, 0.1, 0.01, 0.3, 0.05], [0., 0.1, 4., 0., 0.05])))[:nb]).tolist()
        kinds = [ch.pick("error %d" % i, FRAC if n < 4 else FRAC[:4]) for i in range(n)]
        f = np.array([[FLUX[(i * 2 + b) % 5] for b in range(nb)] for i in range(n)])
        w = np.array([[ivar(kinds[i] if b == i % nb else FRAC[(i + b) % 6], f[i, b], fl[b]) for b in range(nb)] for i in range(n)])
        for conv in (np.array, lambda x: np.asarray(x).tolist(), np.asfortranarray, lambda x: np.asarray(x)[::-1].copy()[::-1],
                     lambda x: np.asarray(x).astype(">f8")):
            F, W, L = conv(f), conv(w), conv(fl)
            got = floor_(floor=L, maggies=F, ivar=W)
            judge(fl, f, w, got, 1e-6, "%d bands" % nb)
            need(np.array_equal(np.asarray(F), f) and np.array_equal(np.asarray(W), w) and np.array_equal(np.asarray(L), fl),
                 "input modified")
            for i in range(n):
                one = floor_(floor=L, maggies=F[i], ivar=W[i])
                need(kc.close(got[i], one, 1e-9), "row", i, "is", got[i], "alone", one)
            ch.checked(n + 1)
        return "%d %s" % (nb, kinds)
    return body


@check.harness()
def long_catalogues(tier):
    """catalogues of many lengths"""
    sizes = (6, 7, 10, 16, 31, 32, 33, 64, 99, 100, 101, 128, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025, 2048, 5000)

    def body(ch):
        n = ch.pick("objects", sizes)
        nb = ch.pick("bands", (1, 2, 5))
        fl = [0.03, 0.1, 0.01, 0.3, 0.05][:nb]
        f = np.array([[FLUX[(i * i + 3 * b) % 5] for b in range(nb)] for i in range(n)])
        w = np.array([[ivar(FRAC[(i * 7 + i // 6 + b) % 6], f[i, b], fl[b]) for b in range(nb)] for i in range(n)])
        judge(fl, f, w, floor_(floor=fl, maggies=f, ivar=w), 1e-6, "n=%d" % n)
        ch.checked(n)
        return "%d %d" % (n, nb)
    return body
