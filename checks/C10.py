"""C10 maggies convert to physical flux density at the effective wavelength"""
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
check = Check("C10", assumptions=["Each execution runs in its own process starting from an empty response registry; values compared to 1e-5."],
              rule="Executions are all combinations of the alphabets of each harness.")


def judge(names, m, w, got, what):
    need(isinstance(got, tuple) and len(got) == (2 if w is None else 3), what, "returned", len(got))
    lam = np.array([ref.band(n).lambda_eff() for n in names])
    need(kc.close(got[0], lam, 1e-6), what, "wavelengths", got[0], "should be", lam)
    fac = ref.ab_flambda(lam)
    need(kc.close(got[1], np.asarray(m, dtype=np.float64) * fac, 1e-5), what, "flux", got[1], "should be",
         np.asarray(m, dtype=np.float64) * fac)
    if w is not None:
        need(kc.close(got[2], np.asarray(w, dtype=np.float64) / fac**2, 1e-5), what, "ivar", got[2], "should be",
             np.asarray(w, dtype=np.float64) / fac**2)


@check.harness(isolate=True)
def band_lists(tier):
    """every ordered list (repeats included) of 1 to 3 (thorough: 4) bands out of 4, with [nb], [1,nb] and [3,nb] fluxes, with and
    without inverse variances, starting from an empty registry or with every subset of the bands loaded before"""
    pool = kc.bands("b1", "b3", "b6") + ["sdss_g0"]
    longest = 3 if tier == "quick" else 4
    for p in pool:
        ref.band(p)

    def body(ch):
        names = [ch.pick("first", pool)]
        while len(names) < longest:
            nxt = ch.pick("next", [None] + pool)
            if nxt is None:
                break
            names.append(nxt)
        pre = ch.pick("loaded before", ("none", "all", "last", "other order twice") if tier == "quick" else (
            "none", "all", "last", "other order twice", "first", "other"))
        f = kcorrect.response.ResponseDict()
        if pre != "none":
            for p in dict(all=pool, last=names[-1:], first=names[:1], other=[x for x in pool if x not in names]).get(
                    pre, pool[::-1] * 2):
                f.load_response(p)
        nb = len(names)
        m1 = np.float32(np.array([3e-9, -2e-9, 0., 1.])[:nb])
        w1 = np.float32(np.array([1e18, 0., 2e17, 4.])[:nb])
        for m, w in ((m1, None), (m1, w1), (m1[None], w1[None]), (np.stack([m1, 2 * m1, 0 * m1]), np.stack([w1, 0 * w1, 3 * w1])),
                     (np.stack([m1] * nb), None), (np.stack([m1 * (i + 1) for i in range(nb)]), np.stack([w1] * nb)),
                     (m1.astype(np.float64), w1.astype(np.float64))):
            b = m.copy(), None if w is None else w.copy()
            got = kcorrect.utils.maggies2flambda(maggies=m, ivar=w, responses=names)
            judge(names, m, w, got, "%s %s" % (names, m.shape))
            need(np.array_equal(m, b[0]) and (w is None or np.array_equal(w, b[1])), "input modified")
            ch.checked()
        for p in names:
            need(p in f and f[p].lambda_eff is not None, p, "not in the registry afterwards")
        return "%d %s" % (nb, pre)
    return body


@check.harness(isolate=True)
def histories(tier):
    """every sequence of 4 (thorough: 5) out of: converting with one band, the other, or both; replacing the file of either; loading either
    with or without reloading"""
    d = kc.scratch()
    curves = [(3600., 550.), (5000., 300.), (8000., 500.)]
    lam = [ref.band(kc.synth_band("c10v%d" % v, *curves[v])).lambda_eff() for v in range(3)]
    ops = [("convert", (0,)), ("convert", (1,)), ("convert", (1, 0)), ("replace", 0), ("replace", 1), ("reload", 0), ("reload", 1), ("load", 0)]

    def body(ch):
        mine = [os.path.join(d, "c10-%d-%d" % (os.getpid(), i)) for i in range(2)]

        def put(i, v):
            kc.write_dat(mine[i], *kc.bump(*curves[v]))
        now, reg, done = [0, 1], [None, None], []
        try:
            for i in range(2):
                put(i, now[i])
            for s in range(4 if tier == "quick" else 5):
                op, x = ch.pick("step %d" % s, ops)
                done.append("%s %s" % (op, x))
                if op == "replace":
                    now[x] = (now[x] + 1) % 3
                    put(x, now[x])
                    continue
                if op in ("reload", "load"):
                    kcorrect.response.ResponseDict().load_response(mine[x], reload=op == "reload")
                    if op == "reload" or reg[x] is None:
                        reg[x] = now[x]
                    continue
                for i in x:
                    if reg[i] is None:
                        reg[i] = now[i]
                m = np.array([3e-9, -2.])[:len(x)]
                got = kcorrect.utils.maggies2flambda(maggies=m, responses=[mine[i] for i in x])
                want = np.array([lam[reg[i]] for i in x])
                if ch.fresh:
                    need(kc.close(got[0], want, 1e-6), " > ".join(done), ": wavelengths", got[0], "should be", want)
                    need(kc.close(got[1], m * ref.ab_flambda(want), 1e-5), " > ".join(done), ": flux", got[1])
                    ch.checked()
        finally:
            for p in mine:
                if os.path.exists(p + ".dat"):
                    os.unlink(p + ".dat")
        return "%s %s" % (now, reg)
    return body


@check.harness()
def lengths(tier):
    """catalogues of many lengths and 1 to 7 bands"""
    names = kc.bands("b1", "b2", "b3", "b4", "b5", "b6", "b7")

    def body(ch):
        nb = ch.pick("bands", range(1, 8))
        n = ch.pick("objects", (1, 2, 3, 4, 5, 6, 7, 8, 10, 64, 100, 101, 256, 257, 1000, 1001, 1024, 4097))
        m = (np.arange(n * nb) % 17 - 3.).reshape(n, nb)
        w = (np.arange(n * nb) % 5 + 0.).reshape(n, nb)
        judge(names[:nb], m, w, kcorrect.utils.maggies2flambda(maggies=m, ivar=w, responses=names[:nb]), "%d x %d" % (n, nb))
        judge(names[:nb], m, None, kcorrect.utils.maggies2flambda(maggies=m, responses=names[:nb]), "%d x %d" % (n, nb))
        ch.checked(2)
        return "%d %d" % (nb, n)
    return body


@check.harness()
def shipped(tier):
    """every shipped response on its own and with its neighbour in the listing"""
    names = []
    d = os.path.join(ref.DATA, "responses")
    for x in sorted(os.listdir(d)):
        if x.endswith(".dat") and os.path.isfile(os.path.join(d, x)):
            try:
                ref.band(x[:-4])
                names.append(x[:-4])
            except (ref.ParseError, ValueError):
                pass
    if len(names) < 300:
        raise AssertionError("only %d responses" % len(names))

    def body(ch):
        i = ch.pick("response", range(len(names)))
        pair = [names[i], names[(i + 1) % len(names)]]
        judge(pair, np.array([2., -3.]), np.array([4., 0.5]), kcorrect.utils.maggies2flambda(
            maggies=np.array([2., -3.]), ivar=np.array([4., 0.5]), responses=pair), str(pair))
        ch.checked()
        return names[i]
    return body
