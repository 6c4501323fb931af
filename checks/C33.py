"""C33 bandpasses the user defines work like shipped ones"""
import copy
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
R, KC, U = kcorrect.response, kcorrect.kcorrect, kcorrect.utils
check = Check("C33", assumptions=[
    "Each execution runs in its own process starting from an empty response registry; values compared to 1e-4 (fluxes, ratios) and 3e-4 "
    "mag with float64 photometry through the curve that was put in the registry.",
    "Nothing is said about derived quantities of objects built before one of their bandpasses was replaced or removed."],
    rule="Executions are all combinations of the alphabets, or all sequences of operations up to the depth bound, of each harness.")

CURVES = [(5200., 400.), (6900., 700.), (8800., 500.), (4100., 300.)]
Z = np.float32([0.05, 0.2, 0.4])
C = np.float32([[1., 2.], [0.5, 0.], [0., 3.]])


def curve(v):
    w, r = kc.bump(*CURVES[v], n=13, skew=0.3)
    return np.round(w, 6), np.round(r, 6)


def know(name, v):
    """Tell the reference what is under the name"""
    p = name if os.path.isabs(name) else os.path.join(ref.DATA, "responses", name)
    if v is None:
        ref._bands.pop(p, None)
    else:
        ref._bands[p] = ref.Band(*curve(v), name)


def close(got, want, tol, *what):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    need(got.shape == want.shape, *what, "shape", got.shape, "not", want.shape)
    need(kc.close(got, want, tol, atol=1e-22), *what, got, "should be", want)


def magclose(got, want, *what):
    need(np.shape(got) == np.shape(want) and kc.mclose(got, want, 3e-4), *what, got, "should be", want)


def judge(k, m, what, derived=True):
    """The object does what the model says"""
    close(k.reconstruct(redshift=Z, coeffs=C), [m.reconstruct(z, c) for z, c in zip(Z, C)], 1e-4, what, "reconstruct")
    close(k.reconstruct_out(redshift=Z, coeffs=C, band_shift=0.05),
          [m.reconstruct(z, c, 0.05, "out") for z, c in zip(Z, C)], 1e-4, what, "reconstruct_out")
    magclose(k.kcorrect(redshift=Z, coeffs=C), [m.kcorrect(z, c) for z, c in zip(Z, C)], what, "kcorrect")
    f = np.float32([m.reconstruct(z, c) for z, c in zip(Z, C)])
    iv = np.float32(1. / (0.01 * f)**2)
    am = k.absmag(redshift=Z, maggies=f, ivar=iv, coeffs=C)
    magclose(am, [m.absmag(Z[i], f[i], iv[i], C[i])["absmag"] for i in range(3)], what, "absmag")
    if len(m.responses) > 1:
        fit = k.fit_coeffs(redshift=Z, maggies=f, ivar=iv)
        close([m.reconstruct(z, c) for z, c in zip(Z, fit)], f, 1e-3, what, "fluxes of the fit")
    if derived:
        d = k.derived(redshift=Z, coeffs=C)
        for n in ("mtol", "mremain", "b300", "metallicity"):
            close(d[n], [m.derived(z, c)[n] for z, c in zip(Z, C)], 3e-4, what, n)


def flambda(name, v, what):
    lam = ref.Band(*curve(v)).lambda_eff()
    got = U.maggies2flambda(maggies=np.float32([2e-9]), ivar=np.float32([3e18]), responses=[name])
    close(got[0], [lam], 1e-5, what, "effective wavelength")
    close(got[1], [2e-9 * ref.ab_flambda(lam)], 3e-5, what, "flux density")


def made(how, v):
    """A response of the curve, made in one of several ways"""
    w, r = curve(v)
    p = os.path.join(kc.scratch(), "c33-%d" % os.getpid())
    if how in ("f32", "f64"):
        t = np.float32 if how == "f32" else np.float64
        return R.Response(wave=w.astype(t), response=r.astype(t))
    if how == "reversed":
        return R.Response(wave=w[::-1], response=r[::-1])
    if how == "shuffled":
        i = np.argsort((np.arange(len(w)) * 5) % len(w))
        return R.Response(wave=w[i], response=r[i])
    try:
        if how == "dat":
            kc.write_dat(p, w, r)
            return R.Response(filename=p + ".dat")
        if how == "dat later":
            kc.write_dat(p, w, r)
            x = R.Response()
            x.fromdat(filename=p + ".dat")
            return x
        if how == "fits":
            R.Response(wave=w, response=r).tofits(filename=p + ".fits")
            x = R.Response()
            x.fromfits(filename=p + ".fits")
            return x
    finally:
        for e in (".dat", ".fits"):
            if os.path.exists(p + e):
                os.unlink(p + e)
    return copy.deepcopy(R.Response(wave=w, response=r))


WAYS = ("f32", "f64", "reversed", "shuffled", "dat", "dat later", "fits", "copy")
PUT = ("item", "update", "setdefault", "replacing another", "replacing the loaded one")


@check.harness(isolate=True)
def sources(tier):
    """8 ways of making the response x 5 ways of putting it into the registry x 5 names (new, that of a shipped one, with spaces and dots, a
    path without a file, a path with a file of another curve) x 4 roles (observed, output, both, mapped): every operation, flux conversion, save and reload"""
    path = kc.template_file(2, 60)
    t = ref.Templates(path)
    other = kc.bands("b3")[0]
    ref.band(other)
    filed = kc.synth_band("c33filed", 6200., 500.)
    kc.synth_band("mine", 6300., 400.)         # found by the listing, not by a load
    names = ("mine", "sdss_g0", "sub.x 1/my band.v2", os.path.join(kc.scratch(), "c33-nowhere"), filed)

    def body(ch):
        name = ch.pick("name", names)
        how = ch.pick("made", WAYS)
        put = ch.pick("put", PUT)
        role = ch.pick("role", ("observed", "output", "both", "mapped"))
        what = "%s made %s put by %s as %s:" % (os.path.basename(name), how, put, role)
        f = R.ResponseDict()
        if put == "replacing another":
            f[name] = made("f64", 3)
        elif put == "replacing the loaded one" and name in ("sdss_g0", filed):
            f.load_response(name)
        x = made(how, 0)
        if put == "update":
            f.update({name: x})
        elif put == "setdefault":
            f.setdefault(name, x)
        else:
            f[name] = x
        know(name, 0)
        flambda(name, 0, what)
        kw = dict(observed=dict(responses=[name, other], responses_out=[other], responses_map=[other]),
                  output=dict(responses=[other, kc.bands("b5")[0]], responses_out=[name, other], responses_map=[other, other]),
                  both=dict(responses=[other, name]),
                  mapped=dict(responses=[name, other], responses_out=[other, name, name], responses_map=[name, other, name]))[role]
        rng = [0., 0.5]
        k = KC.Kcorrect(templates=kcorrect.template.Template(filename=path), redshift_range=rng, nredshift=4, **kw)
        m = ref.Model(t, lo=0., hi=0.5, n=4, **kw)
        judge(k, m, what)
        need(f[name] is x, what, "the response is not the one put there")
        R.all_responses(response_dir=os.path.dirname(filed), check_validity=True)
        f.load_response(name)
        need(f[name] is x, what, "the response was replaced by a listing or a load")
        p = os.path.join(kc.scratch(), "c33k-%d.fits" % os.getpid())
        try:
            k.tofits(p)
            k2 = KC.Kcorrect(filename=p)
        finally:
            if os.path.exists(p):
                os.unlink(p)
        need(f[name] is x, what, "the response was replaced by saving or reloading")
        judge(k2, m, what + " reloaded:")
        ch.checked(4)
        return "%s %s %s %s" % (os.path.basename(name), how, put, role)
    return body


@check.harness(isolate=True)
def histories(tier):
    """every sequence of 3 (thorough: 4) out of 13 operations on two names, one without and one with a file of its own: putting one of two
    curves, removing, loading, reloading, using (conversion and a new object), listing; then both used; objects built before keep their
    model fluxes"""
    path = kc.template_file(2, 60)
    t = ref.Templates(path)
    other = kc.bands("b3")[0]
    ref.band(other)
    ops = [(o, n) for n in ("bare", "filed") for o in ("put 0", "put 1", "remove", "load", "reload", "use")] + [("list", None)]

    def body(ch):
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="c33-", dir=kc.scratch())
        try:
            kc.write_dat(os.path.join(d, "filed"), *curve(2))
            name = {"bare": "mine", "filed": os.path.join(d, "filed")}
            file = {"bare": None, "filed": 2}
            reg, objs, done = {}, [], []
            f = R.ResponseDict()

            def loads(n):
                if n not in reg and file[n] is not None:
                    reg[n] = [file[n], None]

            def use(n):
                what = " > ".join(done)
                kw = dict(responses=[other, name[n]], responses_out=[name[n]], responses_map=[other])

                def new():
                    return KC.Kcorrect(templates=kcorrect.template.Template(filename=path), redshift_range=[0., 0.5], nredshift=3, **kw)
                loads(n)
                if n not in reg:
                    for fn in (new, lambda: U.maggies2flambda(maggies=np.float32([1.]), responses=[name[n]])):
                        try:
                            fn()
                        except ValueError:
                            continue
                        need(False, what, ": the unknown", n, "was accepted")
                    return
                v = reg[n][0]
                know(name[n], v)
                k, m = new(), ref.Model(t, lo=0., hi=0.5, n=3, **kw)
                m.reconstruct(0.1, C[0])
                for i in range(3):
                    m._at(i, m.responses)
                    m._at(i, m.out)
                judge(k, m, what)
                flambda(name[n], v, what)
                objs.append((k, m, what))

            for s in range(3 if tier == "quick" else 4):
                op, n = ch.pick("step %d" % s, ops)
                done.append("%s %s" % (op, n))
                what = " > ".join(done)
                if op.startswith("put"):
                    v = int(op[-1])
                    x = made("f64", v)
                    f[name[n]] = x
                    reg[n] = [v, x]
                elif op == "remove":
                    f.pop(name[n], None)
                    reg.pop(n, None)
                elif op == "list":
                    r = R.all_responses(response_dir=d, check_validity=True)
                    need(r == ["filed"], what, "lists", r)
                    f.pop("filed", None)                 # under its own name
                elif op == "use":
                    use(n)
                else:
                    try:
                        f.load_response(name[n], reload=op == "reload")
                        ok = True
                    except ValueError:
                        ok = False
                    if op == "reload":
                        need(ok == (file[n] is not None), what, "succeeded" if ok else "failed")
                        if ok:
                            reg[n] = [file[n], None]
                    else:
                        need(ok == (n in reg or file[n] is not None), what, "succeeded" if ok else "failed")
                        loads(n)
                for q in name:
                    need((name[q] in f) == (q in reg), what, q, "in the registry:", name[q] in f)
                    if q in reg and reg[q][1] is not None:
                        need(f[name[q]] is reg[q][1], what, q, "is not the response put there")
                    elif q in reg:
                        reg[q][1] = f[name[q]]
            done.append("use both")
            for n in name:
                use(n)
            for k, m, what in objs:
                judge(k, m, what + ", at the end:", derived=False)
            ch.checked(len(objs) + 1)
            return " ".join(str(reg[n][0]) if n in reg else "-" for n in name)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return body
