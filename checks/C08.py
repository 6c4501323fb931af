"""C08 SDSS catalogue magnitudes convert to maggies and AB as defined"""
import itertools

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
U = kcorrect.utils
check = Check("C08", assumptions=["Conversions are compared with the written-out formulas to 2e-5 (relative; near zero flux relative to the "
                                  "softening scale)."],
              rule="Executions are all combinations of the alphabets of each harness.")

REGIMES = (17.3, 22.1, 24.4, 27.0)        # bright, faint, near the softening, negative flux
SHAPES = (None, 1, 2, 3, 5, 6, (2, 3), (5, 5))


def rows(x):
    return np.asarray(x, dtype=np.float64).reshape(-1, 5)


def check_asinh(mag, err, ext, got, what):
    if err is None:
        need(isinstance(got, np.ndarray), what, "returned", type(got))
        mg, iv = got, None
    else:
        need(isinstance(got, tuple) and len(got) == 2, what, "returned", type(got))
        mg, iv = got
        need(np.shape(iv) == np.shape(mag), what, "ivar shape", np.shape(iv))
    need(np.shape(mg) == np.shape(mag), what, "shape", np.shape(mg))
    M = rows(np.float32(mag))
    X = rows(np.float32(ext)) if ext is not None else np.zeros(M.shape)
    E = rows(np.float32(err)) if err is not None else None
    G = rows(mg)
    for i in range(len(M)):
        for k in range(5):
            want = ref.asinh_to_maggies(M[i, k], k, X[i, k])
            b = ref.SOFT[k] * 10.**(0.4 * X[i, k])
            need(abs(G[i, k] - want) <= 2e-5 * abs(want) + 2e-5 * b, what,
                 "object %d band %d mag=%s ext=%s: maggies %r, should be %r" % (i, k, M[i, k], X[i, k], G[i, k], want))
            if E is not None:
                want = ref.asinh_ivar(M[i, k], E[i, k], k, X[i, k])
                g = rows(iv)[i, k]
                need(abs(g - want) <= 4e-5 * want, what,
                     "object %d band %d mag=%s err=%s ext=%s: ivar %r, should be %r" % (i, k, M[i, k], E[i, k], X[i, k], g, want))


def containers(x):
    x = np.float32(x)
    return dict(float32=x, float64=x.astype(np.float64), list=x.tolist(), bigendian=x.astype(">f4"))


@check.harness()
def asinh_patterns(tier):
    """every pattern of magnitude regime (bright, faint, near softening, negative) over the 5 bands x extinction pattern x errors given
    or not, single object and catalogue row"""
    exts = [None, (0.,) * 5, (0.5, 0.4, 0.3, 0.2, 0.1), (0., 2., 0., 0., 1.), (-0.1, 0.1, 0., 0.3, 3.)]

    def body(ch):
        mag = [ch.pick("mag %d" % i, REGIMES) + 0.07 * i for i in range(5)]
        ext = ch.pick("extinction", exts)
        other = [19., 23., 16., 25., 21.]
        for err in (None, (0.02, 0.05, 0.1, 0.3, 0.01), (1e-5, 3e-6, 2., 1e-4, 7e-7)):
            got = U.sdss_asinh_to_maggies(mag=np.float32(mag), mag_err=None if err is None else np.float32(err),
                                          extinction=None if ext is None else np.float32(ext))
            check_asinh(mag, err, ext, got, "[5]")
            m2 = [other, mag]
            e2 = None if err is None else [err[::-1], err]
            x2 = None if ext is None else [ext[::-1], ext]
            got = U.sdss_asinh_to_maggies(mag=np.float32(m2), mag_err=None if err is None else np.float32(e2),
                                          extinction=None if ext is None else np.float32(x2))
            check_asinh(m2, e2, x2, got, "[2,5]")
            ch.checked(2)
        return "%s" % (mag,)
    return body


@check.harness()
def asinh_shapes(tier):
    """every catalogue shape ([5], [N,5] for several N including 5, [A,B,5]) x container x errors, extinction present or not;
    signal-to-noise unaffected by extinction; inputs untouched"""
    def body(ch):
        sh = ch.pick("shape", SHAPES)
        lead = () if sh is None else (sh,) if np.ndim(sh) == 0 else sh
        n = int(np.prod(lead, dtype=int)) * 5
        base = np.arange(n).reshape(lead + (5,))
        mag = 8. + (base * 7 % 23) * 1.1
        err = 0.01 + (base * 3 % 11) * 0.02
        ext = 0.05 + (base * 5 % 13) * 0.1
        we, wx = ch.flag("errors"), ch.flag("extinction")
        c = ch.pick("container", ("float32", "float64", "list", "bigendian"))
        a = [containers(mag)[c], containers(err)[c] if we else None, containers(ext)[c] if wx else None]
        before = [None if x is None else np.array(x, copy=True) for x in a]
        got = U.sdss_asinh_to_maggies(mag=a[0], mag_err=a[1], extinction=a[2])
        check_asinh(mag, err if we else None, ext if wx else None, got, "%s %s" % (sh, c))
        for x, y in zip(a, before):
            need(x is None or np.array_equal(np.asarray(x), y), "input changed from", y, "to", x)
        again = U.sdss_asinh_to_maggies(mag=a[0], mag_err=a[1], extinction=a[2])
        check_asinh(mag, err if we else None, ext if wx else None, again, "second call")
        if we and wx:
            m0, i0 = U.sdss_asinh_to_maggies(mag=a[0], mag_err=a[1])
            s0, s1 = np.float64(m0) * np.sqrt(np.float64(i0)), np.float64(got[0]) * np.sqrt(np.float64(got[1]))
            need(kc.close(s1, s0, 1e-4, 1e-4), "signal-to-noise changed by the extinction from", s0, "to", s1)
        ch.checked(3)
        return "%s %s %s" % (sh, we, wx)
    return body


FIXES = [None, (-0.036, 0.012, 0.010, 0.028, 0.040), (0., 0., 0., 0., 0.), (0.1, -0.2, 0.3, -0.4, 0.5), (1., 2., 3., 4., 5.),
         (0., 0., 0., 0., 2.5)]


def judge_ab(f, w, fix, got, what):
    fac = [ref.ab_factor(k, fix or ref.ABFIX) for k in range(5)]
    if w is None:
        need(isinstance(got, np.ndarray), what, "returned", type(got))
        gm = got
    else:
        need(isinstance(got, tuple) and len(got) == 2, what, "returned", type(got))
        gm, gw = got
        need(kc.close(gw, np.asarray(w, dtype=np.float64) / np.array(fac)**2, 2e-6), what, "ivar", w, "became", gw)
    need(kc.close(gm, np.asarray(f, dtype=np.float64) * np.array(fac), 2e-6), what, "fluxes", f, "became", gm)


@check.harness()
def ab_patterns(tier):
    """AB correction of every pattern of flux (positive, faint, zero, negative) over 5 bands x inverse variances given or not x
    alternative offsets (list, array), single object and catalogue row"""
    def body(ch):
        f = np.float32([ch.pick("flux %d" % i, (1.5, 1e-10, 0., -2.)) for i in range(5)])
        fix = ch.pick("offsets", FIXES)
        kw = {} if fix is None else dict(abfix=list(fix))
        w = np.float32([3., 0., 1e20, 7., 0.5])
        for ww in (None, w):
            judge_ab(f, ww, fix, U.sdss_ab_correct(maggies=f, ivar=ww, **kw), "[5]")
            f2, w2 = np.stack([f[::-1], f]), None if ww is None else np.stack([ww[::-1], ww])
            if kw:
                kw = dict(abfix=np.float64(fix))
            judge_ab(f2, w2, fix, U.sdss_ab_correct(maggies=f2, ivar=w2, **kw), "[2,5]")
            ch.checked(2)
        return str(np.sign(f))
    return body


@check.harness()
def ab_shapes(tier):
    """AB correction of every catalogue shape x container; inputs untouched; repeated calls with other offsets in between"""
    def body(ch):
        sh = ch.pick("shape", SHAPES)
        lead = () if sh is None else (sh,) if np.ndim(sh) == 0 else sh
        n = int(np.prod(lead, dtype=int)) * 5
        f = (np.arange(n) * 7 % 23 - 5.).reshape(lead + (5,))
        w = (np.arange(n) * 3 % 11 + 0.).reshape(lead + (5,))
        c = ch.pick("container", ("float32", "float64", "list", "bigendian"))
        ww = ch.flag("ivar")
        seq = [ch.pick("offsets %d" % i, FIXES) for i in range(2)]
        a, b = containers(f)[c], containers(w)[c] if ww else None
        before = np.array(a, copy=True), np.array(b, copy=True)
        for fix in seq:
            kw = {} if fix is None else dict(abfix=list(fix))
            keep = list(fix) if fix else None
            judge_ab(f, w if ww else None, fix, U.sdss_ab_correct(maggies=a, ivar=b, **kw), "%s %s" % (sh, c))
            need(keep is None or kw["abfix"] == keep, "offsets changed")
            ch.checked()
        need(np.array_equal(np.asarray(a), before[0]), "fluxes changed")
        need(b is None or np.array_equal(np.asarray(b), before[1]), "inverse variances changed")
        return "%s %s" % (sh, ww)
    return body


@check.harness()
def object_methods(tier):
    """the SDSS object's to_ab and fit_coeffs_asinh agree with the conversions: scalar, one row, three rows, with and without
    extinction"""
    from mc.common import build
    sd = ["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0"]
    k, m = build(sd, nt=3, rng=(0., 0.5), n=4, cls=kcorrect.kcorrect.KcorrectSDSS)
    p, _ = build(sd, nt=3, rng=(0., 0.5), n=4)
    from checks.C01 import judge as optimal

    def body(ch):
        n = ch.pick("rows", (0, 1, 3))
        wx = ch.flag("extinction")
        mags = [ch.pick("regime %d" % i, (18., 23.)) for i in range(5)]
        N = max(n, 1)
        mag = np.float32([np.array(mags) + 0.3 * i for i in range(N)])
        err = np.float32(0.02 + 0.01 * np.arange(N * 5).reshape(N, 5))
        ext = np.float32(0.3 + 0.1 * (np.arange(N * 5) % 4).reshape(N, 5))
        z = np.float32([0.1, 0.3, 0.5][:N])
        sq = (lambda x: x[0]) if n == 0 else (lambda x: x)
        c = np.atleast_2d(k.fit_coeffs_asinh(redshift=sq(z), mag=sq(mag), mag_err=sq(err), extinction=sq(ext) if wx else None))
        for i in range(N):
            f = [ref.asinh_to_maggies(float(mag[i, b]), b, float(ext[i, b]) if wx else 0.) * ref.ab_factor(b) for b in range(5)]
            w = [ref.asinh_ivar(float(mag[i, b]), float(err[i, b]), b, float(ext[i, b]) if wx else 0.) / ref.ab_factor(b)**2
                 for b in range(5)]
            optimal(m, z[i], f, w, c[i], "fit_coeffs_asinh row %d" % i)
            ch.checked()
        f = np.float32(mag - 17.)
        judge_ab(sq(f), None, None, k.to_ab(maggies=sq(f)), "to_ab")
        judge_ab(sq(f), sq(err), None, k.to_ab(maggies=sq(f), ivar=sq(err)), "to_ab")
        need(kc.same(p.to_ab(maggies=sq(f)), sq(f)), "general to_ab")
        ch.checked(3)
        return "%d %s %s" % (n, wx, mags)
    return body
