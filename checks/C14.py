"""C14 an SED's redshift state is a function of the last redshift set"""
import os

import numpy as np

from mc import kc, ref
from mc.engine import Check, need

kcorrect = kc.load()
SED = kcorrect.template.SED
Template = kcorrect.template.Template
check = Check("C14", assumptions=[
    "After every operation the observed arrays are compared to the rest-frame ones of the model (1e-6) and, bit for bit, to those of a "
    "fresh object set to the same redshift."],
    rule="Executions are all sequences of operations up to the depth bound, for each kind of object.")

NW = 48


def arrays(n):
    return kc.template_arrays(n, NW)


class World:
    def __init__(self, kind, n, interp):
        self.kind = kind
        self.wave, self.flux, prop = arrays(n)
        self.n = n
        self.path = os.path.join(kc.scratch(), "c14-%d.fits" % os.getpid())
        self.interp = self.twin_interp = interp
        self.flat = kind == "one spectrum as 1-D array"
        if kind == "Template":
            self.src = kc.template_file(n, NW)
            self.obj = Template(filename=self.src, interpolate=interp)
            self.twin = Template(filename=self.src, interpolate=interp)
        elif kind == "binary image":
            p = os.path.join(kc.scratch(), "c14b%d.fits" % n)
            if not os.path.exists(p):
                kc.write_templates(p, self.wave, self.flux, {}, binimage=True)
            self.obj = SED(filename=p, interpolate=interp)
            self.twin = SED(filename=p, interpolate=interp)
        else:
            self.a = self.wave.copy()
            self.b = (self.flux[0] if self.flat else self.flux).copy()
            self.b0 = self.b.copy()
            self.obj = SED(wave=self.a, flux=self.b, interpolate=interp)
            self.twin = SED(wave=self.a, flux=self.b, interpolate=interp)
        self.twin.set_redshift(0.25)
        self.z = 0.
        self.saved = False

    def close(self):
        if os.path.exists(self.path):
            os.unlink(self.path)

    def state(self, what):
        for obj, z, flag, tag in ((self.obj, self.z, self.interp, what), (self.twin, 0.25, self.twin_interp, what + " twin object")):
            need(kc.same(obj.restframe_wave, self.wave) and kc.same(obj.restframe_flux, self.flux), tag, "rest-frame spectrum changed")
            need(obj.nsed == self.n and obj.nwave == NW, tag, "counts", obj.nsed, obj.nwave)
            need(kc.close(obj.redshift, z, 1e-7), tag, "redshift", obj.redshift, "should be", z)
            need(kc.close(obj.wave, self.wave.astype(float) * (1 + float(z)), 1e-6), tag, "wave is not that of redshift", z)
            need(kc.close(obj.flux, self.flux.astype(float) / (1 + float(z)), 1e-6), tag, "flux is not that of redshift", z)
            rest = np.trapezoid(self.flux.astype(float), self.wave.astype(float), axis=-1)
            need(kc.close(np.trapezoid(np.asarray(obj.flux, float), np.asarray(obj.wave, float), axis=-1), rest, 1e-5), tag,
                 "bolometric flux not conserved")
            if not obj.interpolate:
                need(not flag, tag, "lost its interpolator flag")
                need(obj.interp is None, tag, "unexpected interpolator")
            else:
                need(obj.interp is not None, tag, "no interpolator")
                w = np.asarray(obj.wave, dtype=float)
                mid = np.sqrt(w[1:] * w[:-1])
                want = ref.spline0(w, np.asarray(obj.flux, float))(mid)
                need(kc.close(obj.interp(mid), want, 1e-4, atol=1e-5 * np.abs(want).max()), tag, "interpolator does not match the spectrum")
                need(np.all(obj.interp(np.array([w[0] * .99, w[-1] * 1.01])) == 0), tag, "interpolator not zero outside")
        fresh = SED(wave=self.wave, flux=self.flux, interpolate=False)
        fresh.set_redshift(self.z)
        need(kc.same(self.obj.wave, fresh.wave) and kc.same(self.obj.flux, fresh.flux), what,
             "differs from a fresh object at the same redshift")
        if self.kind not in ("Template", "binary image"):
            need(np.array_equal(self.a, self.wave) and np.array_equal(self.b, self.b0), what, "arguments changed")

    def set(self, z):
        self.obj.set_redshift(z)
        self.z = z

    def set_interp(self):
        self.obj.set_interp()
        self.interp = True

    def project(self):
        b = ref.band(kc.bands("b3")[0])
        f = kcorrect.response.ResponseDict()
        f.load_response(kc.bands("b3")[0])
        R = f[kc.bands("b3")[0]]
        w = self.wave.astype(float) * (1 + float(self.z))
        want = b.project(w, self.flux.astype(float) / (1 + float(self.z)))
        if self.obj.interpolate:
            need(kc.close(np.atleast_1d(R.project(sed=self.obj)), want, 1e-4), "projection of the object")
        need(kc.close(np.atleast_1d(R.project(wave=self.obj.wave, flux=self.obj.flux)), want, 1e-4), "projection of its arrays")

    def save(self):
        self.obj.tofits(filename=self.path)
        self.saved = True

    def reread(self):
        if self.saved:
            self.obj.fromfits(filename=self.path)
            self.z = 0.

    def replace(self):
        if self.saved:
            self.obj = type(self.obj)(filename=self.path, interpolate=self.interp)
            self.z = 0.

    def fit(self):
        if self.kind == "Template":
            kcorrect.kcorrect.Kcorrect(responses=kc.bands("b2", "b4"), responses_out=kc.bands("b3", "b2"), templates=self.obj,
                                       responses_map=kc.bands("b2", "b4"),
                                       redshift_range=[0.05, 0.4], nredshift=3)
        else:
            f = kcorrect.fitter.Fitter(responses=kc.bands("b2", "b4"), templates=self.obj, redshift_range=[0.1, 0.4], nredshift=3)
            f.set_Amatrix()
        self.z = 0.


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


OPS = [Op(x) for x in [
    ("z=0.5", lambda w: w.set(0.5)), ("z=0", lambda w: w.set(0.)), ("fit", lambda w: w.fit()), ("save", lambda w: w.save()),
    ("reread", lambda w: w.reread()), ("z=2", lambda w: w.set(np.float32(2.))), ("project", lambda w: w.project()),
    ("z=-0.25", lambda w: w.set(-0.25)), ("set_interp", lambda w: w.set_interp()), ("replace by file", lambda w: w.replace()),
    ("z=1 (integer)", lambda w: w.set(1))]]
KINDS = (("spectra", 3), ("Template", 2), ("one spectrum as 1-D array", 1), ("binary image", 2), ("Template", 1), ("spectra", 1))


def run(ch, ops, kinds, depth):
    kind, n = ch.pick("object", kinds)
    w = World(kind, n, ch.flag("interpolate"))
    done = ["%s (%d)" % (kind, n)]
    try:
        for i in range(depth):
            op = ch.pick("operation %d" % (i + 1), ops)
            done.append(op[0])
            op[1](w)
            if ch.fresh:
                w.state(" > ".join(done) + ":")
                ch.checked()
    finally:
        w.close()
    return "%s %s %s" % (kind, w.z, w.obj.interpolate)


def setup():
    for n in (1, 2):
        kc.template_file(n, NW)
        World("binary image", n, False)
    ref.band(kc.bands("b3")[0])


@check.harness()
def histories(tier):
    """6 kinds of object (one or several spectra, templates, binary images), with and without interpolator: every sequence of 3
    (thorough: 4) operations out of 11: five redshifts, set_interp, project, save, read back in place, replace by the file's content,
    use in a fitting object"""
    setup()
    return lambda ch: run(ch, OPS, KINDS, 3 if tier == "quick" else 4)


@check.harness()
def longer(tier):
    """a template set and a plain set of spectra: every sequence of 4 (thorough: 6) out of 5 operations: z=0.5, z=0, fit, save, reread"""
    setup()
    return lambda ch: run(ch, OPS[:5], KINDS[:2], 4 if tier == "quick" else 6)


@check.harness()
def redshifts(tier):
    """every pair of redshifts from a set of 14 (both signs, integer, single and double precision, large), one after the other, for
    every kind of object"""
    setup()
    zs = (0., 0.5, 1., 2., -0.25, -0.9, 9., 1000., 1e-7, np.float32(0.1), 1, 3, np.float64(0.1), 0)

    def body(ch):
        kind, n = ch.pick("object", KINDS)
        w = World(kind, n, ch.flag("interpolate"))
        done = []
        try:
            for i in range(2):
                z = ch.pick("redshift", zs)
                done.append("z=%r" % (z,))
                w.set(z)
                w.state(" > ".join(done))
                ch.checked()
        finally:
            w.close()
        return "%s %s" % (kind, w.z)
    return body
