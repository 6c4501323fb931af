"""Small fixtures for the demonstrations: kcorrect from the current directory's src, a scratch folder, templates, bands"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

os.environ.pop("KCORRECT_DIR", None)
os.environ["MPLBACKEND"] = "Agg"
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
D = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, D, True)
os.environ["MPLCONFIGDIR"] = D
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np                                  # noqa: E402
import astropy.io.fits as fits                      # noqa: E402
import kcorrect.fitter                              # noqa: E402
import kcorrect.kcorrect                            # noqa: E402
import kcorrect.response                            # noqa: E402
import kcorrect.template                            # noqa: E402
import kcorrect.utils                               # noqa: E402
assert os.path.abspath(kcorrect.__file__).startswith(os.path.abspath("src")), kcorrect.__file__


def path(name):
    return os.path.join(D, name)


def band(name, center, width, n=11, wave=None, resp=None):
    """Write a bandpass file; returns its name"""
    if wave is None:
        wave = np.linspace(center - width, center + width, n)
        resp = 1. - ((wave - center) / width)**2
    with open(path(name + ".dat"), "w") as fp:
        fp.write("# demo\n| %14s | %14s |\n" % ("lambda", "pass"))
        for w, r in zip(wave, resp):
            fp.write("| %14.6f | %14.6f |\n" % (w, r))
    return path(name)


def bands():
    return [band("a", 4000., 500.), band("b", 5600., 600.), band("c", 7300., 700.), band("d", 9000., 800.)]


def templates(n=3, name="t.fits", **prop):
    """Write a template set and return it read back"""
    wave = np.exp(np.linspace(np.log(1000.), np.log(30000.), 300)).astype(np.float32)
    x = np.log(wave / 5500.)
    flux = np.float32([(1. + j) * 1e-9 * np.exp((j - 1.3) * x) * (1. + 0.3 * np.sin((3 + j) * x)) for j in range(n)])
    j = np.arange(n)
    p = dict(INTSFH=1. + 0.5 * j, MREMAIN=0.6 + 0.2 * j, METS=0.01 + 0.005 * j, M300=0.1 + 0.05 * j, M50=0.02 + 0.03 * (j % 2),
             M1000=0.3 + 0.1 * j)
    p.update(prop)
    out = np.zeros(1, np.dtype([("wave", "f4", len(wave)), ("flux", "f4", flux.shape)]))
    out["wave"], out["flux"] = wave, flux
    hdus = [fits.PrimaryHDU(), fits.BinTableHDU(out, name="FLUX")]
    hdus += [fits.ImageHDU(np.float32(v), name=k) for k, v in p.items()]
    fits.HDUList(hdus).writeto(path(name), overwrite=True)
    return kcorrect.template.Template(filename=path(name), interpolate=True)


def build(nt=3, cls=None, **kw):
    kw.setdefault("responses", bands())
    kw.setdefault("templates", templates(nt))
    kw.setdefault("redshift_range", [0., 1.])
    kw.setdefault("nredshift", 11)
    return (cls or kcorrect.kcorrect.Kcorrect)(**kw)


def near(a, b, rtol=1e-4, atol=0.):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol)


def ok(cond, *msg):
    if not cond:
        print("FAILED:", *msg)
        sys.exit(1)


def raised(kind, value, trace):
    sys.__excepthook__(kind, value, trace)
    print("FAILED:", kind.__name__, value)


sys.excepthook = raised
