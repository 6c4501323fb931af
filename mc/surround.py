"""What C30 looks at: one pass through kcorrect, in whatever surroundings this process is in.

python mc/surround.py SRC OUT [relative]: import kcorrect from SRC and write the pickled results to OUT"""
import os
import pickle
import sys
import warnings


def bring(src):
    """Import kcorrect from src (as it is spelled)"""
    sys.path.insert(0, src)
    import kcorrect
    import kcorrect.kcorrect
    import kcorrect.response
    import kcorrect.template
    import kcorrect.utils
    return kcorrect


def first(kcorrect, relative):
    """Objects, made from shipped files, and files of one's own named relative to the working directory"""
    o = dict(k=kcorrect.kcorrect.KcorrectSDSS(nredshift=2, redshift_range=[0., 0.4]))
    o["g"] = kcorrect.kcorrect.Kcorrect(responses=["galex_NUV", "bessell_V"], nredshift=2, redshift_range=[0., 0.4])
    r = kcorrect.response.Response(filename="twomass_J.dat")
    o["own"] = r
    if relative:
        o["T"] = kcorrect.template.Template(filename="own-t.fits")
        o["S"] = kcorrect.template.SED(filename="own-s.fits")
        o["K"] = kcorrect.kcorrect.Kcorrect(filename="own-k.fits")
    return o


def numbers(r):
    return [list(map(float, r.wave)), list(map(float, r.response)), float(r.lambda_eff), float(r.fwhm), float(r.solar_magnitude),
            float(r.vega2ab)]


def then(kcorrect, o, relative):
    """What they give; all as plain lists"""
    import numpy as np
    f = kcorrect.response.ResponseDict()
    out = dict(registry=sorted(f), listing=sorted(kcorrect.response.all_responses()))
    for name in ("sdss_r0", "bessell_V", "bessell_B"):
        f.load_response(name)
        out[name] = numbers(f[name])
    out["own"] = numbers(o["own"])
    out["relative"] = numbers(kcorrect.response.Response(filename="sdss_g0.dat"))
    k = o["k"]
    z, m = np.array([0.1, 0.35]), 1e-9 * np.array([[1., 2., 4., 5., 7.], [1., 1., 2., 5., 9.]])
    c = k.fit_coeffs(redshift=z, maggies=m, ivar=4e20 + 0. * m)
    out["fit"] = c.tolist()
    out["absmag"] = k.absmag(redshift=z, maggies=m, ivar=4e20 + 0. * m, coeffs=c).tolist()
    out["derived"] = {a: b.tolist() for a, b in k.derived(redshift=z, coeffs=c).items()}
    out["other"] = o["g"].kcorrect(redshift=z, coeffs=np.ones((2, 5))).tolist()
    out["templates"] = [float(k.templates.restframe_flux.sum()), k.templates.mremain.tolist()]
    out["flambda"] = [x.tolist() for x in kcorrect.utils.maggies2flambda(maggies=m, ivar=m, responses=["sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0",
                                                                                               "sdss_z0"])]
    late = kcorrect.kcorrect.Kcorrect(responses=["decam_r", "bessell_V"], nredshift=2, redshift_range=[0., 0.4])
    out["late"] = late.reconstruct(redshift=z, coeffs=np.ones((2, 5))).tolist()
    if relative:
        out["T"] = [np.float64(o["T"].restframe_flux).tolist(), o["T"].m300.tolist()]
        o["S"].set_redshift(0.2)
        out["S"] = [np.float64(o["S"].wave).tolist(), np.float64(o["S"].flux).tolist()]
        out["K"] = [o["K"].kcorrect(redshift=0.1, coeffs=np.ones(3)).tolist(), o["K"].templates.mremain.tolist()]
    return out


if __name__ == "__main__":
    warnings.simplefilter("ignore")
    k = bring(sys.argv[1])
    r = then(k, first(k, len(sys.argv) > 3), len(sys.argv) > 3)
    r["where"] = os.path.realpath(k.__file__)
    with open(sys.argv[2], "wb") as fp:
        pickle.dump(r, fp)
