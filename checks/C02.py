"""C02 a catalogue is processed exactly as its objects one by one"""
import itertools

import numpy as np

from mc import kc, ref
from mc.common import build
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C02", assumptions=[
    "Objects are drawn from the listed kinds; long catalogues repeat the kinds in a fixed aperiodic order.",
    "Row and single results are compared to 5e-6 (relative, 5e-5 mag for magnitudes): the code returns "
    "single precision for catalogues and double precision for some single objects.",
], rule="Executions are all combinations of object, operation, catalogue composition, order and container.")

LO, HI = 0., 0.9


def world():
    ks = []
    ks.append(("3 bands", ) + build(("b2", "b3", "b4"), nt=3, rng=(LO, HI), n=7))
    ks.append(("3 in 2 out", ) + build(("b2", "b3", "b4"), ("b5", "b2"), ("b4", "b4"), nt=4, rng=(LO, HI), n=7))
    ks.append(("2 in 4 out", ) + build(("b2", "b4"), ("b3", "b2", "b4", "b1"), ("b2", "b2", "b4", "b2"), nt=2, rng=(LO, HI), n=7))
    ks.append(("1 band 1 template", ) + build(("b3",), nt=1, rng=(LO, HI), n=7))
    ks.append(("3 bands 3 templates 3 out", ) + build(("b2", "b3", "b4"), ("b3", "b4", "b5"), ("b2", "b3", "b4"), nt=3,
                                                      rng=(LO, HI), n=7))
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    ks.append(("sdss", ) + build(sd, nt=3, rng=(LO, HI), n=5, cls=_Sdss))
    return ks


class _Sdss(kcorrect.kcorrect.KcorrectSDSS):
    pass


def kinds(m):
    """Objects: (name, z, maggies, ivar, coeffs)"""
    nb, nt = len(m.responses), m.t.n
    base = m.A(0.2).dot(1. + np.arange(nt) % 3)
    w = 100. / base**2
    blue = base * np.linspace(1.5, 0.7, nb)
    one = np.zeros(nt)
    one[-1] = 2.5
    mix = 0.3 + np.arange(nt) * 0.7
    k = [("ordinary", 0.2137642, base, w, mix),
         ("other", 0.5548731, 3e-9 * blue, w / 9e-18, one * 1e9),
         ("zero", 0.4038715, -base, w, 0. * mix),
         ("missing", 0.1046183, np.where(np.arange(nb) == nb - 1, 0., base), np.where(np.arange(nb) == nb - 1, 0., w), mix * 1e-3),
         ("negative", 0.3071529, np.where(np.arange(nb) == 0, -0.1, 1.) * blue, w, one),
         ("no data", 0.25, 0. * base, 0. * w, 0. * mix),
         ("low end", LO, blue, w * 3, mix),
         ("high end", HI, base * 7, w / 49, mix * 7),
         # share some of their values with the first
         ("same z", 0.2137642, blue, w * np.linspace(9., 0.1, nb), one),
         ("nearly the same z", 0.2134589, base * 1.3, w / 2, mix * 0.8),
         ("same fluxes", 0.6249317, base, w * np.linspace(0.1, 9., nb), mix)]
    return k


OUT = ("out of range", 1.7)


def ops(sdss):
    def fit(k, o, d):
        return (k.fit_coeffs(redshift=o[0], maggies=o[1], ivar=o[2]),)

    def asinh(k, o, d):
        return (k.fit_coeffs_asinh(redshift=o[0], mag=o[4], mag_err=o[5], extinction=o[6]),)

    def rec(k, o, d):
        return (k.reconstruct(redshift=o[0], coeffs=o[3]),)

    def recout(bs):
        def reconstruct_out(k, o, d):
            return (k.reconstruct_out(redshift=o[0] if bs == 0. else o[7], coeffs=o[3], band_shift=bs),)
        return reconstruct_out

    def kcor(bs):
        def kcorrect_(k, o, d):
            return (k.kcorrect(redshift=o[0], coeffs=o[3], band_shift=bs),)
        return kcorrect_

    def absm(flags, dist, bs):
        def absmag(k, o, d):
            kw = dict(zip(("reconstruct", "limit", "kcorrect"), flags))
            r = k.absmag(redshift=o[0], maggies=o[1], ivar=o[2], coeffs=o[3], band_shift=bs,
                         distance=d if dist else None, **kw)
            return r if isinstance(r, tuple) else (r,)
        absmag.__name__ = "absmag%s%s bs=%s" % (flags, " distance" if dist else "", bs)
        return absmag

    def derv(dist, bs):
        def derived(k, o, d):
            r = k.derived(redshift=o[0], coeffs=o[3], distance=d if dist else None, band_shift=bs)
            return tuple(r[x] for x in sorted(r))
        derived.__name__ = "derived%s bs=%s" % (" distance" if dist else "", bs)
        return derived

    r = [fit, rec, recout(0.), recout(0.1), kcor(0.), kcor(0.1)]
    r += [absm(f, d, b) for f in itertools.product((False, True), repeat=3) for d, b in ((False, 0.), (True, 0.1))]
    r += [derv(d, b) for d in (False, True) for b in (0., 0.1)]
    if sdss:
        r.append(asinh)
    return r


def tag(z):
    return 350. * (1. + z * 3.)


def full(kind, m):
    """(z, maggies, ivar, coeffs, mag, mag_err, ext, z_small) of one object"""
    name, z, f, w, c = kind
    nb = len(m.responses)
    mag = 18. + np.arange(nb) * 0.3 + len(name) * 0.1
    err = 0.02 + 0.01 * np.arange(nb)
    ext = 0.05 * (1 + np.arange(nb))
    return (z, f, w, c, mag, err, ext, z * 0.5)


def stack(rows):
    return tuple(np.array([r[i] for r in rows]) for i in range(8))


def f32(o):
    return tuple(np.float32(x) for x in o)


def agree(got, want, what):
    need(len(got) == len(want), what, "number of outputs", len(got), len(want))
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        need(g.shape == w.shape, what, "shape", g.shape, "instead of", w.shape)
        g, w = g.astype(np.float64), w.astype(np.float64)
        bad = (w <= -9990) | (g <= -9990)
        need(np.array_equal(g[bad], w[bad]), what, "-9999 in different places:", g, w)
        ok = (g == w) | (np.abs(g - w) <= 5e-6 * np.abs(w) + 1e-30) | (np.isnan(g) & np.isnan(w))
        ok |= (np.abs(g - w) <= 5e-5) & (np.abs(w) > 1e-3) & (np.abs(w) < 60) & (np.abs(w - g) < 5e-5)
        need(np.all(ok), what, "got", g, "but alone", w)


class World:
    def __init__(self):
        self.items = []
        for name, k, m in world():
            kk = kinds(m)
            self.items.append((name, k, m, [full(x, m) for x in kk], [x[0] for x in kk], ops(name == "sdss")))
        self.alone = {}

    def single(self, i, j, op):
        key = (i, j, op)
        if key not in self.alone:
            name, k, m, objs, names, _ = self.items[i]
            o = f32(objs[j])
            self.alone[key] = op(k, o, np.float32(tag(objs[j][0])))
        return self.alone[key]


def rows(res, i):
    return tuple(np.asarray(r)[i] for r in res)


def compare(w, i, op, js, res, what):
    for r in res:
        need(np.ndim(r) >= 1 and np.shape(r)[0] == len(js), what, "leading axis: shape", np.shape(r), "for", len(js), "objects")
    for p, j in enumerate(js):
        agree(rows(res, p), w.single(i, j, op), lambda: "%s row %d (%s)" % (what, p, w.items[i][4][j]))


@check.harness()
def compositions(tier):
    """every catalogue of 1 to 3 (thorough: 4 for some operations) objects from 11 kinds, every order, for every operation and object"""
    w = World()

    def body(ch):
        i = ch.pick("object", range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        op = ch.pick("operation", oo)
        n = ch.pick("rows", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4) if len(op.__name__) < 12 else (1, 2, 3))
        js = [ch.pick("row %d" % p, range(len(objs))) for p in range(min(n, 2))]
        # the last rows run over everything in one execution
        for rest in itertools.product(range(len(objs)), repeat=n - len(js)):
            jj = js + list(rest)
            o = f32(stack([objs[j] for j in jj]))
            res = op(k, o, np.float32([tag(objs[j][0]) for j in jj]))
            compare(w, i, op, jj, res, "%s %s" % (name, op.__name__))
            ch.checked(len(jj))
        return "%s %s %d %s" % (name, op.__name__, n, js)
    return body


@check.harness()
def all_but_one(tier):
    """catalogues of 2, 3 or 12 objects that share every value but one (redshift, fluxes, weights, coefficients, distance, or none), which
    differs in one row or in every row"""
    w = World()
    parts = {"nothing": (), "redshift": (0, 7), "maggies": (1, 4), "ivar": (2, 5), "coeffs": (3, 6), "distance": ()}

    def body(ch):
        i = ch.pick("object", range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        op = ch.pick("operation", oo)
        n = ch.pick("rows", (2, 3, 12))
        j = ch.pick("kind", (0, 1, 7))
        part = ch.pick("differing in", list(parts))
        at = ch.pick("row", [None, 0, n - 1] + ([1] if n > 2 else []))
        if at is not None and part == "nothing":
            return None
        o = [np.repeat(x[None], n, axis=0) for x in f32(stack([objs[j]]))]
        o = [x[:, 0] for x in o]
        d = np.full(n, 400., dtype=np.float32)
        which = range(n) if at is None else (at,)
        for p in which:
            for q in parts[part]:
                o[q][p] = np.float32(objs[(8, 9, 2, 4, 3)[p % 5]][q])
            if part == "distance":
                d[p] = 70. * (p + 1)
        res = op(k, tuple(o), d)
        alone = {}
        for p in range(n):
            key = p if p in which else -1
            if key not in alone:
                alone[key] = op(k, tuple(x[p] for x in o), d[p])
            agree(rows(res, p), alone[key], "%s %s %d objects equal but for %s of %s, row %d" % (name, op.__name__, n, part, at, p))
        ch.checked(n)
        return "%s %s %s" % (name, op.__name__, part)
    return body


@check.harness()
def with_out_of_range(tier):
    """fits of catalogues in which any subset of up to 4 rows is outside the redshift range"""
    w = World()

    def body(ch):
        i = ch.pick("object", range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        n = ch.pick("rows", (1, 2, 3, 4))
        out = [ch.flag("row %d out" % p) for p in range(n)]
        js = [(p * 3 + 1) % len(objs) for p in range(n)]
        o = list(f32(stack([objs[j] for j in js])))
        o[0] = np.float32([ch.pick("z out", (1.7, -0.2)) if x else z for x, z in zip(out, o[0])])
        res = k.fit_coeffs(redshift=o[0], maggies=o[1], ivar=o[2])
        need(np.shape(res) == (n, m.t.n), "shape", np.shape(res))
        for p, j in enumerate(js):
            if out[p]:
                need(np.all(res[p] == 0), name, "row out of range:", res[p])
            else:
                agree((res[p],), w.single(i, j, oo[0]), "row %d" % p)
        ch.checked(n)
        return "%s %s" % (name, out)
    return body


SIZES = [4, 5, 6, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 200, 256, 257, 300, 499, 500, 501, 512, 513]
BIG = [999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2001, 2047, 2048, 2049, 3000, 4096, 4097]
HUGE = [5000, 5001, 8192, 8193, 10000, 10001, 16385, 20001]


@check.harness(timeout=400)
def long_catalogues(tier):
    """every operation on catalogues of many lengths (around powers of two and of ten)"""
    w = World()

    def body(ch):
        i = ch.pick("object", (0, 2, 5) if tier == "quick" else range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        op = ch.pick("operation", oo)
        sizes = SIZES + BIG if op.__name__ in ("fit", "rec", "reconstruct_out", "kcorrect_", "asinh") or "True, True, True" in \
            op.__name__ or op.__name__.startswith("derived") else (5, 10, 101, 257, 1025)
        if tier == "thorough":
            sizes = SIZES + BIG + (HUGE if i == 0 else [])
        n = ch.pick("rows", sizes)
        js = [(p * p + p // 7) % len(objs) for p in range(n)]
        o = f32(tuple(np.array(x) for x in stack(objs)))
        ix = np.array(js)
        o = tuple(x[ix] for x in o)
        res = op(k, o, np.float32([tag(objs[j][0]) for j in js]))
        want = [w.single(i, j, op) for j in range(len(objs))]
        need(len(res) == len(want[0]), "outputs", len(res))
        for q, r in enumerate(res):
            full_ = np.stack([np.asarray(want[j][q], dtype=np.float64) for j in range(len(objs))])[ix]
            agree((r,), (full_,), "%s %s n=%d" % (name, op.__name__, n))
        ch.checked(n)
        return "%s %s %d" % (name, op.__name__, n)
    return body


def containers():
    """(name, maker) of things holding the same values"""
    def strided(x):
        if not x.ndim:
            return x
        big = np.full(tuple(2 * s for s in x.shape), 7.7, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v

    def readonly(x):
        x = x.copy()
        x.flags.writeable = False
        return x

    def reverse(x):
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1] if x.ndim else x

    def aslist(x):
        return x.tolist()

    def astuple(x):
        return tuple(tuple(r) if np.ndim(r) else r for r in x.tolist()) if x.ndim else x.tolist()

    def rows_(x):
        return [r for r in x] if x.ndim > 1 else x
    return [("float32", lambda x: x), ("float64", np.float64), ("big endian float32", lambda x: x.astype(">f4")),
            ("big endian float64", lambda x: x.astype(">f8")), ("list", aslist), ("tuple", astuple), ("strided", strided),
            ("Fortran order", lambda x: np.asfortranarray(x) if x.ndim else x), ("read only", readonly), ("negative stride", reverse),
            ("long double", np.longdouble), ("list of rows", rows_), ("column of a table", column)]


def column(x):
    rec = np.zeros(max(len(x), 1) if x.ndim else 1, dtype=[("a", "i4"), ("v", x.dtype, x.shape[1:]), ("b", "f8")])
    rec["v"] = x
    return rec["v"] if x.ndim else rec["v"][0]


@check.harness()
def container_kinds(tier):
    """every operation with every kind of container for each argument (one unusual argument at a time and all at once),
    scalar redshift, one row or three rows"""
    w = World()
    cc = dict(containers())

    def body(ch):
        i = ch.pick("object", range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        op = ch.pick("operation", oo)
        n = ch.pick("rows", (0, 1, 3))
        cname = ch.pick("container", list(cc))
        conv = cc[cname]
        which = ch.pick("argument", ("all", "redshift", "values"))
        js = [0] if n == 0 else [1] if n == 1 else [0, 3, 1]
        o = f32(stack([objs[j] for j in js])) if n else f32(objs[0])
        d = np.float32([tag(objs[j][0]) for j in js]) if n else np.float32(tag(objs[0][0]))
        scal = (0, 7)
        if not n:
            o = tuple(np.asarray(x, dtype=np.float32) for x in o)
            d = np.asarray(d)
        o2 = tuple(conv(x) if which == "all" or (which == "redshift") == (p in scal) else x for p, x in enumerate(o))
        d2 = conv(d) if which == "all" else d
        res = op(k, o2, d2)
        what = "%s %s %s %s" % (name, op.__name__, cname, which)
        if n:
            compare(w, i, op, js, res, what)
        else:
            agree(res, w.single(i, 0, op), what)
        ch.checked()
        return what
    return body


@check.harness()
def integer_redshifts(tier):
    """redshift 0 given as an integer, Python float, 0-dimensional array or integer array"""
    w = World()
    zs = [0, 0., np.int64(0), np.float64(0.), np.array(0.), np.array(0), False]

    def body(ch):
        i = ch.pick("object", range(len(w.items)))
        name, k, m, objs, names, oo = w.items[i]
        op = ch.pick("operation", [x for x in oo if "absmag" not in x.__name__ and "derived" not in x.__name__ or
                                   "distance" in x.__name__])
        array = ch.pick("array", (None, 1, 2))
        z = ch.pick("z", zs if array is None else [np.zeros(array, dtype=int), [0] * array, np.zeros(array, dtype=np.float16)])
        o = list(f32(objs[6]))
        d = np.float32(400.)
        want = op(k, tuple(o), d)
        o[0] = o[7] = z
        if array is not None:
            o[1:7] = [np.stack([x] * array) for x in o[1:7]]
            d = np.full(array, 400., dtype=np.float32)
        res = op(k, tuple(o), d)
        if array is None:
            agree(res, want, "%s %s z=%r" % (name, op.__name__, z))
        else:
            for p in range(array):
                agree(rows(res, p), want, "%s %s z=%r" % (name, op.__name__, z))
        ch.checked()
        return "%s %s %r" % (name, op.__name__, z)
    return body
