"""C15 spectra, templates and responses survive FITS round trips"""
import os

import numpy as np
from astropy.io import fits

from mc import kc, ref
from mc.engine import Check, Violation, need

kcorrect = kc.load()
SED = kcorrect.template.SED
Template = kcorrect.template.Template
Response = kcorrect.response.Response
PROPS = ("intsfh", "mremain", "mets", "m50", "m300", "m1000")
check = Check("C15", assumptions=[
    "Binary-image spectra and tables are not mixed in one file; extension names are non-empty strings other than WAVE.",
    "Of two extensions of the same name the first is read by name, either by its number."],
    rule="Executions are all sequences of operations up to the depth bound; after each new one everything the file should hold is read back "
         "and compared to the model.")


def spectrum(which):
    """(wave, flux2d)"""
    if which == "A":
        w, f, _ = kc.template_arrays(3, 40)
        return w, f
    if which == "B":
        w = np.linspace(3000.123456789, 9000.987654321, 17)
        return w, np.array([np.exp(np.sin(w / 700.)) * 1e-17])
    if which == "I":
        w, f, _ = kc.template_arrays(2, 24)
        return w, f * 2
    if which == "J":
        w, f, _ = kc.template_arrays(1, 31)
        return w, f * 3
    raise KeyError(which)


def curve(which):
    if which == "R1":
        return kc.bump(5000., 400., 9)
    w, r = kc.bump(8000.3, 300.7, 13)
    return w.astype(np.float32), (r * 0.37).astype(np.float32)


class World:
    def __init__(self, tag=""):
        self.path = os.path.join(kc.scratch(), "c15%s-%d.fits" % (tag, os.getpid()))
        self.clean()
        self.file = None           # None or list of (ext, kind, which)
        self.obj = {}
        for k in "AB":
            w, f = spectrum(k)
            self.obj[k] = SED(wave=w.copy(), flux=(f if k == "A" else f[0]).copy(), interpolate=(k == "B"))
        self.obj["B"].set_redshift(0.7)
        for k in "IJ":
            p = os.path.join(kc.scratch(), "c15-image%s.fits" % k)
            if not os.path.exists(p):
                w, f = spectrum(k)
                kc.write_templates(p, w, f, {}, binimage=True)
            self.obj[k] = SED(filename=p, interpolate=False)
        self.obj["T"] = Template(filename=kc.template_file(2, 36))
        for k in ("R1", "R2"):
            w, r = curve(k)
            self.obj[k] = Response(wave=w, response=r)
        self.z = dict(A=0., B=0.7, I=0., J=0., T=0.)
        self.twave, self.tflux, self.tprop = kc.template_arrays(2, 36)

    def clean(self):
        if os.path.exists(self.path):
            os.unlink(self.path)

    # -- operations
    def write(self, which, ext, clobber, what):
        o = self.obj[which]
        image = which in "IJ"
        if not clobber and self.file is not None and which != "T":
            mixed = any((w in "IJ") != image for e, k, w in self.file)
            if mixed:
                return False
        if which == "T" and self.file is not None and not clobber:
            before = open(self.path, "rb").read()
            try:
                o.tofits(filename=self.path, clobber=False)
            except Exception:                               # noqa: BLE001
                need(open(self.path, "rb").read() == before, what, "refused, but changed the file")
                return True
            raise Violation(what + " did not refuse to overwrite")
        if which == "T":
            o.tofits(filename=self.path, clobber=clobber)
        elif image and ext is None:
            o.tofits(filename=self.path, clobber=clobber)
        elif ext is None:
            o.tofits(filename=self.path, clobber=clobber)
        else:
            o.tofits(filename=self.path, ext=ext, clobber=clobber)
        kind = "response" if which[0] == "R" else "sed"
        new = [(ext or "FLUX", kind, which)]
        if which == "T":
            new = [("FLUX", "sed", "T")] + [(p.upper(), "prop", p) for p in ("intsfh", "mremain", "mets", "m300", "m50", "m1000")]
        if image:
            new = [("WAVE", "wave", which), ("FLUX", "sed", which)]
        self.file = new if clobber or self.file is None else self.file + new
        return True

    def reread(self, which):
        """Replace an object by the matching content of the file"""
        if self.file is None:
            return False
        idx = [i for i, (e, k, w) in enumerate(self.file) if w == which]
        if not idx:
            return False
        i = idx[-1]
        if which == "T":
            self.obj["T"] = Template(filename=self.path)
        elif which[0] == "R":
            self.obj[which].fromfits(filename=self.path, ext=i + 1)
        elif which in "IJ":
            if self.file[1][2] != which:
                return False
            self.obj[which].fromfits(filename=self.path)
        else:
            self.obj[which].fromfits(filename=self.path, ext=i + 1)
        if which in self.z:
            self.z[which] = 0.
        return True

    def redshift(self, which, z):
        self.obj[which].set_redshift(z)
        self.z[which] = z
        return True

    # -- checks
    def is_sed(self, s, which, what):
        w, f = (self.twave, self.tflux) if which == "T" else spectrum(which)
        need(s.nsed == len(f) and s.nwave == len(w), what, "counts", s.nsed, s.nwave, "should be", f.shape)
        need(np.shape(s.restframe_wave) == w.shape and np.shape(s.restframe_flux) == f.shape, what, "shapes", np.shape(s.restframe_flux))
        need(kc.same(s.restframe_wave, w) and kc.same(s.restframe_flux, f), what, "is another rest-frame spectrum")
        z = 0. if s.redshift is None else float(s.redshift)
        need(kc.close(s.wave, np.float32(w).astype(float) * (1 + z), 1e-6) and kc.close(
            s.flux, np.float32(f).astype(float) / (1 + z), 1e-6), what, "observed spectrum")

    def is_template(self, t, what):
        self.is_sed(t, "T", what)
        for p in PROPS:
            need(kc.same(np.atleast_1d(getattr(t, p)), self.tprop[p]), what, p, getattr(t, p), "should be", self.tprop[p])

    def is_response(self, r, which, what):
        w, v = curve(which)
        need(kc.close(r.wave, w, 1e-12) and kc.close(r.response, v, 1e-12), what, "is another curve")
        need(r.nwave == len(w) and kc.close(r.lambda_eff, ref.Band(w, v).lambda_eff(), 1e-6), what, "nwave, lambda_eff", r.nwave, r.lambda_eff)

    def state(self, what):
        for k, o in self.obj.items():
            if k == "T":
                self.is_template(o, what + " object T")
            elif k[0] == "R":
                self.is_response(o, k, what + " object " + k)
            else:
                need(kc.close(o.redshift, self.z[k], 1e-7), what, k, "redshift", o.redshift)
                self.is_sed(o, k, what + " object " + k)
        if self.file is None:
            need(not os.path.exists(self.path), what, "file exists")
            return
        image = any(w in "IJ" for e, k, w in self.file if k != "prop")
        with fits.open(self.path) as h:
            names = [x.name.upper() for x in h]
            want = [e.upper() for e, k, w in self.file]
            if names[:1] != want[:1]:
                need(h[0].data is None, what, "first HDU holds data")
                names = names[1:]
            need(names == want, what, "extensions", names, "should be", want)
        if image:
            s = SED(filename=self.path)
            self.is_sed(s, self.file[1][2], what + " binary images")
            need(s.binimage, what, "not recognised as binary images")
            return
        seen = set()
        for i, (e, k, w) in enumerate(self.file):
            for ext in [i + 1] + ([e] if e.upper() not in seen else []) + ([e.lower(), e.upper()] if e.upper() not in seen else []):
                tag = "%s extension %r" % (what, ext)
                if k == "sed":
                    s = SED(filename=self.path, ext=ext, interpolate=False)
                    need(s.redshift == 0 and not s.binimage, tag, "redshift", s.redshift, s.binimage)
                    self.is_sed(s, w, tag)
                elif k == "response":
                    r = Response()
                    r.fromfits(filename=self.path, ext=ext)
                    self.is_response(r, w, tag)
            seen.add(e.upper())
        if self.file[0][2] == "T":
            self.is_template(Template(filename=self.path), what + " templates in the file")
        if self.file[0][1] == "sed" and self.file[0][0] == "FLUX":
            self.is_sed(SED(filename=self.path), self.file[0][2], what + " default extension")
        if self.file[0][1] == "response":
            r = Response()
            r.fromfits(filename=self.path)
            self.is_response(r, self.file[0][2], what + " default extension")


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def W(which, ext, clobber):
    return Op(("write %s to %s, clobber=%s" % (which, ext, clobber), lambda w, s: w.write(which, ext, clobber, s)))


OPS = [W("A", None, True), W("A", "SPEC2", False), W("B", "FLUX", False), W("B", "other", True), W("R1", None, True), W("R1", "R", False),
       W("R2", "R", False), W("T", None, True), W("T", None, False), W("I", "SPEC2", True), W("J", None, False), W("B", None, True),
       Op(("redshift A to 1", lambda w, s: w.redshift("A", 1.))),
       Op(("redshift T to 0.3", lambda w, s: w.redshift("T", 0.3))),
       Op(("read A from the file", lambda w, s: w.reread("A"))), Op(("read B from the file", lambda w, s: w.reread("B"))),
       Op(("read T from the file", lambda w, s: w.reread("T"))), Op(("read R1 from the file", lambda w, s: w.reread("R1"))),
       Op(("read I from the file", lambda w, s: w.reread("I"))), Op(("read J from the file", lambda w, s: w.reread("J")))]


def run(ch, ops, depth):
    w = World()
    done = []
    try:
        for i in range(depth):
            op = ch.pick("operation %d" % (i + 1), ops)
            done.append(op[0])
            if op[1](w, " > ".join(done) + ":") is False:
                return None          # nothing to do here: the sequence is covered without it
            if ch.fresh:
                w.state(" > ".join(done) + ":")
                ch.checked()
        return str(w.file)
    finally:
        w.clean()


def setup():
    kc.template_file(2, 36)
    World().clean()


@check.harness()
def histories(tier):
    """every sequence of 3 (thorough: 4) operations out of 20 on one file: writing two SEDs (one redshifted, one from a 1-D double
    precision array), two responses, a template set, two binary-image SEDs, with and without clobber, to several extension names;
    redshifting; reading an object back from the file it was written to"""
    setup()
    return lambda ch: run(ch, OPS, 3 if tier == "quick" else 4)


@check.harness()
def appended(tier):
    """every sequence of 4 (thorough: 6) non-overwriting writes and re-reads of SEDs and responses"""
    setup()
    ops = [W("A", None, False), W("B", "b", False), W("R2", "R", False), OPS[14], OPS[15]]
    return lambda ch: run(ch, ops, 4 if tier == "quick" else 6)


def exactly(a, b):
    """Equal values and shape, in double precision"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


@check.harness()
def sizes(tier):
    """1 to 6 and 40 spectra, 4 to 9 and 200 samples, single and double precision, table and binary image, ascending and descending, one-row and several-row
    tables, SED and template set (with and without m50, binary images and properties in double precision): written once, read, written again, read"""
    def body(ch):
        n = ch.pick("spectra", (1, 2, 3, 4, 5, 6, 40))
        nw = ch.pick("samples", (4, 5, 6, 7, 8, 9, 200))
        kind = ch.pick("kind", ("table", "table from double precision", "binary image", "template", "template without m50",
                                "binary image template", "table from the red", "binary image from the red",
                                "double precision binary image", "template with double precision properties",
                                "double precision binary image template"))
        z = ch.pick("redshift", (0., 0.5))
        wave, flux, prop = kc.template_arrays(n, nw)
        if "from the red" in kind:
            wave, flux = wave[::-1], flux[:, ::-1]
        same = kc.same
        if kind.startswith("double") or "with double" in kind:
            same = exactly
            if kind.startswith("double"):
                wave, flux = wave.astype(float) * (1. + 1e-10 / 3.), flux.astype(float) * (1. + 1e-10 / 7.)
            prop = {k: v.astype(float) * (1. + 1e-10 / 3.) for k, v in prop.items()}
        base = os.path.join(kc.scratch(), "c15z-%d" % os.getpid())
        files = [base + ".%d.fits" % i for i in range(4)]
        try:
            if kind.startswith("table"):
                t = np.float64 if "double" in kind else np.float32
                o = SED(wave=wave.astype(t), flux=flux.astype(t))
            else:
                if "without" in kind:
                    del prop["m50"]
                elif nw in (8, 9):
                    prop["m50"] *= np.float32(1e-6) if nw == 8 else np.float32(0.)
                kc.write_templates(files[3], wave, flux, prop if "template" in kind else {}, binimage="binary" in kind)
                o = Template(filename=files[3]) if "template" in kind else SED(filename=files[3])
            for i in range(3):
                o.set_redshift(z)
                o.tofits(filename=files[i])
                if "template" in kind:
                    o = Template(filename=files[i])
                    for p in PROPS:
                        need(same(np.atleast_1d(getattr(o, p)), prop.get(p, np.zeros(n))), p, getattr(o, p))
                else:
                    o = SED(filename=files[i])
                eq = same if "binary" in kind else kc.same
                need(o.nsed == n and o.nwave == nw and eq(o.restframe_wave, wave) and eq(o.restframe_flux, flux),
                     "round trip", i + 1, "gave other spectra", np.shape(o.restframe_flux))
                need(o.binimage == ("binary" in kind), "binimage", o.binimage)
                ch.checked()
        finally:
            for f in files:
                if os.path.exists(f):
                    os.unlink(f)
        return "%s %s %s" % (kind, n, nw)
    return body


@check.harness()
def rows(tier):
    """tables of 1 to 5 rows with 1 to 5 spectra of 5 or 8 samples each, as 1-D, 2-D or flattened columns: the first row is read"""
    def body(ch):
        nrow = ch.pick("rows", (1, 2, 3, 4, 5))
        n = ch.pick("spectra", (1, 2, 3, 4, 5))
        nw = ch.pick("samples", (5, 8))
        one = ch.flag("1-D fluxes") if n == 1 else False
        wave, flux, _ = kc.template_arrays(n * nrow, nw)
        dt = np.dtype([("wave", np.float32, nw), ("flux", np.float32, nw if one else (n, nw))])
        out = np.zeros(nrow, dt)
        for i in range(nrow):
            out["wave"][i] = wave * (1 + i)
            out["flux"][i] = flux[i] if one else flux[i * n:(i + 1) * n]
        path = os.path.join(kc.scratch(), "c15r-%d.fits" % os.getpid())
        ext = ch.pick("extension", ("FLUX", "OTHER"))
        try:
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(out, name=ext)]).writeto(path, overwrite=True)
            for e in (ext, 1):
                s = SED(filename=path, ext=e)
                need(s.nsed == n and s.nwave == nw and kc.same(s.restframe_wave, wave) and kc.same(
                    s.restframe_flux, flux[:n]), "read", np.shape(s.restframe_flux))
            r = np.zeros(nrow, np.dtype([("wave", np.float64, nw), ("response", np.float64, nw)]))
            for i in range(nrow):
                r["wave"][i] = wave[::-1] * (1. + i)
                r["response"][i] = np.arange(nw) % 3 + 1. + i
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(r, name=ext)]).writeto(path, overwrite=True)
            for e in (ext, 1):
                R = Response()
                R.fromfits(filename=path, ext=e)
                need(kc.close(R.wave, wave, 1e-6) and kc.close(R.response, (np.arange(nw) % 3 + 1.)[::-1], 1e-12), "response read", R.wave)
            ch.checked(4)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return "%d %d %d" % (nrow, n, nw)
    return body
