"""Objects under test paired with their reference models"""
import numpy as np

from . import kc, ref


def positions(lo, hi, n):
    """Redshifts in every position relative to the grid, and outside of it"""
    d = (hi - lo) / (n - 1.)
    f = np.float32
    k = (n - 1) // 2
    return [("lo", f(lo)), ("grid", f(lo + k * d)), ("between", f(lo + (k + 0.4) * d)), ("hi", f(hi)),
            ("first cell", f(lo + 0.3 * d)), ("last cell", f(hi - 0.2 * d)), ("last grid", f(lo + (n - 2) * d)),
            ("just in", np.nextafter(f(hi), f(-9))), ("above", np.nextafter(f(hi), f(9))), ("far above", f(hi + 5.)),
            ("below", np.nextafter(f(lo), f(-9))), ("far below", f(-0.9))]


def build(tags, out=None, rmap=None, nt=3, rng=(0., 1.), n=11, interpolate=False, cls=None, tfile=None,
          nwave=160, spectra=False, **kw):
    """(Kcorrect, Model) on synthetic bands (tags) or shipped ones (names with '_'); spectra: templates without physical
    properties"""
    k = kc.load()
    path = tfile or kc.template_file(nt, nwave)
    t = (k.template.SED if spectra else k.template.Template)(filename=path, interpolate=interpolate)

    def names(x):
        return None if x is None else [kc.bands(b)[0] if b in kc.BANDS else b for b in x]
    cls = cls or k.kcorrect.Kcorrect
    obj = cls(responses=names(tags), templates=t, responses_out=names(out), responses_map=names(rmap),
              redshift_range=list(rng), nredshift=n, **kw)
    return obj, ref.Model(ref.Templates(path), names(tags), names(out), names(rmap), lo=rng[0], hi=rng[1], n=n,
                          cosmo=kw.get("cosmo"))
