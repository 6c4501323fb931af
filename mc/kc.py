"""Import of the kcorrect under test (from /repo's working tree) and fixtures"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.pop("KCORRECT_DIR", None)
sys.dont_write_bytecode = True

warnings.simplefilter("ignore")

import numpy as np                                         # noqa: E402
import astropy.cosmology                                   # noqa: E402,F401
import astropy.io.ascii                                    # noqa: E402,F401
import astropy.io.fits as fits                             # noqa: E402
import scipy.integrate                                     # noqa: E402,F401
import scipy.interpolate                                   # noqa: E402,F401
import scipy.optimize                                      # noqa: E402

np.seterr(all="ignore")

SRC = "/repo/src"
_scratch = None


def scratch():
    """A private directory, removed when the check ends"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="kcv-")
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
        if "MPLCONFIGDIR" not in os.environ:
            os.environ["MPLCONFIGDIR"] = os.path.join(_scratch, "mpl")
    return _scratch


def load():
    """The kcorrect package, from /repo/src"""
    scratch()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import kcorrect
    import kcorrect.fitter
    import kcorrect.kcorrect
    import kcorrect.response
    import kcorrect.template
    import kcorrect.utils
    if not os.path.abspath(kcorrect.__file__).startswith(SRC + "/"):
        raise RuntimeError("kcorrect was imported from " + kcorrect.__file__)
    if not _synth:
        warm()
    return kcorrect


# -- noise seam -------------------------------------------------------------

class Noise:
    """Every unit-normal number the code draws comes from here.

    script(i) gives the i-th number.  A number is identified by its stream and position, so that
    streams started again from the same seed repeat themselves; taken lists each number once."""

    def __init__(self):
        self.fresh = 0
        self.reset(None)

    def reset(self, script):
        self.script = script
        self.taken = []
        self.known = {}

    def stream(self, seed=None):
        """[name, position] of the stream that a seed starts"""
        if seed is None:
            self.fresh += 1
            return [("fresh", self.fresh), 0]
        if isinstance(seed, np.random.SeedSequence):
            seed = (seed.entropy, seed.spawn_key)
        elif isinstance(seed, np.random.BitGenerator):
            seed = str(seed.state)
        elif not np.isscalar(seed):
            seed = tuple(np.asarray(seed).ravel().tolist())
        return [("seeded", str(seed)), 0]

    def one(self, stream):
        at = (stream[0], stream[1])
        stream[1] += 1
        if at not in self.known:
            self.known[at] = float(self.script(len(self.taken))) if self.script else 0.
            self.taken.append(self.known[at])
        return self.known[at]

    def normal(self, stream, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast_shapes(np.shape(loc), np.shape(scale)) if size is None else (
            (size,) if np.ndim(size) == 0 else tuple(size))
        n = int(np.prod(shape, dtype=int))
        v = np.array([self.one(stream) for _ in range(n)], dtype=np.float64).reshape(shape)
        v = np.asarray(loc) + np.asarray(scale) * v
        return float(v) if v.ndim == 0 else v


NOISE = Noise()


class FakeGenerator:
    def __init__(self, seed=None):
        self.stream = NOISE.stream(seed)

    def __getattr__(self, name):
        return getattr(_real_generator, name)

    def seed(self, seed=None):
        self.stream = NOISE.stream(seed)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return NOISE.normal(self.stream, loc, scale, size)

    def standard_normal(self, size=None, dtype=None, out=None):
        v = self.normal(0., 1., np.shape(out) if size is None and out is not None else size)
        if out is not None:
            out[...] = v
            return out
        return v if dtype is None else np.asarray(v, dtype=dtype)

    def randn(self, *shape):
        return self.normal(0., 1., shape if shape else None)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        mean, cov = np.asarray(mean), np.asarray(cov)
        n = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(size))
        v = self.normal(0., 1., n + (len(mean),))
        if np.array_equal(cov, np.diag(np.diag(cov))):
            return mean + v * np.sqrt(np.diag(cov))
        return mean + v.dot(np.linalg.cholesky(cov).T)

    def spawn(self, n):
        return [FakeGenerator() for _ in range(n)]


_real_generator = np.random.Generator(np.random.PCG64(1))


def patch_noise():
    """Must run before kcorrect is imported"""
    g = FakeGenerator()
    np.random.seed = g.seed
    np.random.normal = g.normal
    np.random.standard_normal = g.standard_normal
    np.random.randn = g.randn
    np.random.multivariate_normal = g.multivariate_normal
    np.random.default_rng = lambda seed=None: seed if isinstance(seed, FakeGenerator) else FakeGenerator(seed)
    np.random.RandomState = FakeGenerator
    np.random.Generator = FakeGenerator


# -- solver seam --------------------------------------------------------------

class Solver:
    """scipy.optimize.nnls with a difficulty per solve.

    difficulty(index, key) -> 0: solved with the default iteration budget,
    1: only with a larger one, 2: never.  A solve is identified by its matrix and vector."""

    def __init__(self):
        self.real = scipy.optimize.nnls
        self.reset(None)

    def reset(self, difficulty):
        self.difficulty = difficulty
        self.calls = []
        self.solves = {}

    def __call__(self, A, b, maxiter=None, **kw):
        A = np.asarray(A)
        b = np.asarray(b)
        key = (A.astype(np.float64).tobytes(), b.astype(np.float64).tobytes())
        if self.difficulty is not None:
            new = key not in self.solves
            if new:
                self.solves[key] = self.difficulty(len(self.solves), key)
            d = self.solves[key]
            self.calls.append((list(self.solves).index(key), maxiter))
            if d == 2 or (d == 1 and (maxiter is None or maxiter <= 3 * A.shape[1])):
                raise RuntimeError("Maximum number of iterations reached.")
        return self.real(A, b, maxiter=maxiter, **kw)


SOLVER = None


def patch_solver():
    """Must run before kcorrect is imported"""
    global SOLVER
    SOLVER = Solver()
    scipy.optimize.nnls = SOLVER
    return SOLVER


# -- fixtures -------------------------------------------------------------------

def write_dat(path, wave, resp, extra=None, comment="synthetic bandpass"):
    """A response file (path without .dat); returns the name to use for it"""
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "w") as fp:
        fp.write("# %s\n" % comment)
        cols = ["lambda", "pass"] + (["pass_1"] if extra is not None else [])
        fp.write("| " + " | ".join("%14s" % c for c in cols) + " |\n")
        for i in range(len(wave)):
            vals = [wave[i], resp[i]] + ([extra[i]] if extra is not None else [])
            fp.write("| " + " | ".join("%14.6f" % v for v in vals) + " |\n")
    os.replace(tmp, path + ".dat")
    return path


def bump(center, width, n=11, skew=0.):
    """A smooth single-peaked curve with zero ends"""
    w = np.linspace(center - width, center + width, n)
    x = (w - center) / width
    return w, np.clip((1. - x**2) * (1. + skew * x), 0., None)


_synth = {}


def synth_band(tag, center, width, n=11, skew=0.):
    """A synthetic bandpass file; name is an absolute path without .dat"""
    path = os.path.join(scratch(), "bands", tag)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if path not in _synth:
        w, r = bump(center, width, n, skew)
        _synth[path] = write_dat(path, w, r)
    return path


def template_arrays(n, nwave=160, wlo=1200., whi=40000.):
    """Distinct smooth positive spectra and distinct physical properties"""
    wave = np.exp(np.linspace(np.log(wlo), np.log(whi), nwave)).astype(np.float32)
    x = np.log(wave.astype(np.float64) / 6000.)
    flux = np.zeros((n, nwave))
    for j in range(n):
        u = (j * 0.6180339887) % 1.
        slope = -2.6 + 2.8 * u
        flux[j] = (1. + 0.13 * (j % 7)) * 4.e-9 * np.exp(slope * x) * (
            1. + 0.5 * np.tanh((x + 0.25 - 0.1 * (j % 5)) * 4.) * (1. - u) + 0.2 * np.sin((4. + j % 6) * x + j))
    flux = np.maximum(flux, 1e-12).astype(np.float32)
    j = np.arange(n, dtype=np.float64)
    prop = dict(intsfh=1. + 0.37 * ((j * 3) % 11), mremain=0.5 + 0.11 * ((j * 5) % 7), mets=0.004 + 0.003 * ((j * 2) % 9),
                m50=0.01 + 0.02 * ((j * 7) % 5), m300=0.05 + 0.04 * ((j * 3) % 7), m1000=0.2 + 0.07 * ((j * 4) % 9))
    young, old = j % 5 == 1, j % 5 == 3    # all its stars are recent; none is
    for k in ("m50", "m300", "m1000"):
        prop[k] = np.where(young, prop["intsfh"], np.where(old, 0., prop[k]))
    # nothing keeps a ratio below one
    prop["m1000"] = np.where(j % 5 == 2, 1.3 * prop["intsfh"], prop["m1000"])
    prop["m50"] = np.where(j % 5 == 2, 1.1 * prop["intsfh"], prop["m50"])
    return wave, flux, {k: v.astype(np.float32) for k, v in prop.items()}


def write_templates(path, wave, flux, prop, binimage=False):
    hd = [fits.PrimaryHDU()]
    if binimage:
        hd += [fits.ImageHDU(wave, name="WAVE"), fits.ImageHDU(flux, name="FLUX")]
    else:
        dt = np.dtype([("wave", np.float32, len(wave)), ("flux", np.float32, flux.shape)])
        out = np.zeros(1, dt)
        out["wave"] = wave
        out["flux"] = flux
        hd.append(fits.BinTableHDU(out, name="FLUX"))
    for k in ("intsfh", "mremain", "mets", "m300", "m50", "m1000"):
        if k in prop:
            hd.append(fits.ImageHDU(prop[k], name=k.upper()))
    tmp = "%s.%d.tmp" % (path, os.getpid())
    fits.HDUList(hd).writeto(tmp, overwrite=True)
    os.replace(tmp, path)
    return path


def template_file(n, nwave=160, order=None, uneven=0, blank=None, **kw):
    """FITS file with n synthetic templates (cached), optionally a selection/permutation of them, or
    with normalisations differing by 10^uneven, or with no flux in the blank ones"""
    tag = "t%d_%d_%s_%s_%s" % (n, nwave, "" if order is None else "-".join(map(str, order)), uneven,
                               "" if blank is None else "-".join(map(str, blank)))
    path = os.path.join(scratch(), tag + ".fits")
    if not os.path.exists(path):
        wave, flux, prop = template_arrays(n, nwave, **kw)
        if uneven:
            flux = (flux * 10.**(uneven * (np.arange(n) % 3 - 1.))[:, np.newaxis]).astype(np.float32)
        if blank is not None:
            flux[list(blank)] = 0.
        if order is not None:
            o = list(order)
            flux, prop = flux[o], {k: v[o] for k, v in prop.items()}
        write_templates(path, wave, flux, prop)
    return path


# synthetic bands used by most checks: name -> (center, width)
BANDS = dict(b1=(3600., 550.), b2=(4800., 800.), b3=(6200., 750.), b4=(7600., 800.), b5=(9100., 1000.),
             b6=(12500., 1500.), b7=(16500., 1700.))
# names that are easily taken for each other
BANDS.update({"s": (4500., 700.), "s2": (5400., 600.), "s.2": (6600., 500.), "sub/s": (7400., 900.), "S": (8400., 600.)})


def warm():
    """Write the usual fixtures now, before any process is forked"""
    for t in BANDS:
        synth_band(t, *BANDS[t])
    for n in range(1, 6):
        template_file(n)


def bands(*tags):
    return [synth_band(t, *BANDS[t]) for t in tags]


def close(a, b, rtol=2e-5, atol=0.):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def mclose(a, b, tol=1e-4):
    """Magnitudes agree to tol (exactly for -9999 and infinities)"""
    return close(a, b, rtol=1e-6, atol=tol)


def same(a, b):
    """Bitwise-equal values and shape (float type may differ only in precision: compare as float32)"""
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(np.float32(a), np.float32(b), equal_nan=True))
