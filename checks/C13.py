"""C13 the response registry survives any history of loads and failures"""
import itertools
import os
import shutil
import tempfile

import numpy as np

from checks.C11 import ref_names
from mc import kc, ref
from mc.engine import Check, Violation, need

kcorrect = kc.load()
RM = kcorrect.response
check = Check("C13", assumptions=[
    "Each history runs in its own process with an empty registry and its own directory of response files.",
    "What a failed construction of a fitting object had already loaded may or may not be in the registry."],
    rule="Executions are all sequences of operations up to the depth bound; the model maps names to (object, curve).")

CURVES = [(5000., 300.), (6500., 400.), (8000., 300.), (9200., 500.)]


def put(d, name, version):
    w, r = kc.bump(*CURVES[version], n=9)
    kc.write_dat(os.path.join(d, name), w, r)


def curve_is(R, version):
    w, r = kc.bump(*CURVES[version], n=9)
    return len(R.wave) == len(w) and kc.close(R.wave, w, 1e-6) and kc.close(R.response, r, 1e-5, atol=1e-5) and kc.close(
        R.lambda_eff, ref.Band(np.round(w, 6), np.round(r, 6)).lambda_eff(), 1e-5)


BAD = {"bad": "# x\n| lambda | throughput |\n|  5000.0 |  1.0 |\n|  5100.0 |  2.0 |\n|  5200.0 |  1.0 |\n|  5300.0 |  0.1 |\n",
       "short": "# x\n| lambda | pass |\n|  5000.0 |  1.0 |\n|  5100.0 |  2.0 |\n",
       "text": "this is not a table\nat all\n"}


class World:
    """The registry under test, its files, and the model of both"""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="c13-", dir=kc.scratch())
        self.files = {"a": 0, "bessell_V": 1, "a.v2_0": 2, "-x y": 3}         # bessell_V is not the shipped one
        for n, v in self.files.items():
            put(self.d, n, v)
        os.mkdir(os.path.join(self.d, "elsewhere"))
        put(os.path.join(self.d, "elsewhere"), "other", 1)
        os.symlink(os.path.join("elsewhere", "other.dat"), os.path.join(self.d, "link.dat"))
        self.files["link"] = 1
        for n, t in BAD.items():
            with open(os.path.join(self.d, n + ".dat"), "w") as fp:
                fp.write(t)
        with open(os.path.join(self.d, "readme.txt"), "w") as fp:
            fp.write("no")
        for n in ("upper.DAT", "adat", "a.data"):
            shutil.copy(os.path.join(self.d, "a.dat"), os.path.join(self.d, n))
        with open(os.path.join(self.d, "a.dat.bak"), "w") as fp:
            fp.write("no")
        os.mkdir(os.path.join(self.d, "folder.dat"))
        self.bad = set(BAD)
        self.reg = {}                 # name -> [object, version]
        self.handle = RM.ResponseDict()
        need(len(self.handle) == 0, "registry of a fresh process is not empty:", lambda: list(self.handle))

    def name(self, n):
        return n[8:] if n.startswith("shipped ") else os.path.join(self.d, n)

    def version(self, n):
        """Version of the file, None if it can't be loaded"""
        if n.startswith("shipped "):
            return n[8:]
        return self.files.get(os.path.normpath(n))

    def same(self, what):
        """Every handle shows the model's registry"""
        for h in (self.handle, RM.ResponseDict()):
            need(h is self.handle, what, "another registry object")
            need(set(h) == set(self.reg), what, "registry holds", lambda: sorted(h), "should hold", lambda: sorted(self.reg))
            for n, (obj, v) in self.reg.items():
                need(h[n] is obj, what, n, "is not the object it was")
                if isinstance(v, int):
                    need(curve_is(obj, v), what, n, "does not describe its file any more")
                else:
                    need(kc.close(obj.lambda_eff, ref.band(v).lambda_eff(), 1e-5) and len(obj.wave) == len(ref.band(v).wave), what, n,
                         "does not describe its file any more")

    def took(self, key, version, what):
        need(key in self.handle, what, key, "is not in the registry")
        self.reg[key] = [self.handle[key], version]

    def load(self, n, reload, what):
        key, v = self.name(n), self.version(n)
        old = self.reg.get(key)
        try:
            if reload is None:
                self.handle.load_response(key)
            else:
                RM.ResponseDict().load_response(key, reload=reload)
            ok = True
        except Exception as e:                              # noqa: BLE001
            ok = False
            err = e
        if old is not None and not reload:
            need(ok, what, "failed although it is loaded:", lambda: err)
            return
        need(ok == (v is not None), what, "should %s" % ("succeed, got %s" % (None if ok else err) if v is not None else "raise"))
        if ok:
            self.took(key, v, what)
            if old is not None:
                need(self.reg[key][0] is not old[0] or curve_is(self.reg[key][0], v), what, "was not reloaded")

    def listing(self, validity, what):
        names = RM.all_responses(response_dir=self.d, check_validity=validity)
        every = set(self.files) | self.bad
        want = set(self.files) if validity else every
        need(len(names) == len(set(names)) and set(names) == want, what, "lists", sorted(names), "should list", sorted(want))
        if validity:
            for n in want:
                if n in self.reg:
                    continue          # its object must stay
                self.took(n, self.files[n], what)

    def construct(self, ns, what):
        keys = [self.name(n) for n in ns]
        can = all(self.name(n) in self.reg or self.version(n) is not None for n in ns)
        try:
            t = kcorrect.template.Template(filename=TEMPLATES)
            o = kcorrect.kcorrect.Kcorrect(responses=keys, templates=t, redshift_range=[0., 0.1], nredshift=3)
            ok = True
        except Exception as e:                              # noqa: BLE001
            ok, err = False, e
        need(ok == can, what, "should %s" % ("succeed, got %r" % (None if ok else err) if can else "raise"))
        for n, key in zip(ns, keys):
            if key not in self.reg and self.version(n) is not None and (can or key in self.handle):
                self.took(key, self.version(n), what)
        if ok:
            b = []
            for n, key in zip(ns, keys):
                v = self.reg[key][1]
                b.append(ref.Band(*kc.bump(*CURVES[v], n=9)) if isinstance(v, int) else ref.band(v))
            T = ref.Templates(TEMPLATES)
            want = np.array([x.project(T.wave, T.flux) for x in b])
            need(kc.close(o.Amatrix(0.), want, 1e-4), what, "uses other bandpasses than the registry's")

    def flambda(self, ns, what):
        keys = [self.name(n) for n in ns]
        can = all(self.name(n) in self.reg or self.version(n) is not None for n in ns)
        try:
            got = kcorrect.utils.maggies2flambda(maggies=np.ones(len(ns)), responses=keys)
            ok = True
        except Exception:                                   # noqa: BLE001
            ok = False
        need(ok == can, what, "should %s" % ("succeed" if can else "raise"))
        for n, key in zip(ns, keys):
            if key not in self.reg and self.version(n) is not None and (can or key in self.handle):
                self.took(key, self.version(n), what)
        if ok:
            want = [self.reg[key][0].lambda_eff for key in keys]
            need(kc.close(got[0], want, 1e-6), what, "wavelengths", got[0], "should be", want)


OPS = [
    ("load a", lambda w, s: w.load("a", None, s)),
    ("load missing", lambda w, s: w.load("missing", None, s)),
    ("load bad", lambda w, s: w.load("bad", False, s)),
    ("reload a", lambda w, s: w.load("a", True, s)),
    ("replace file a", None), ("delete file a", None), ("make file missing", None), ("spoil file a", None),
    ("list", lambda w, s: w.listing(False, s)),
    ("list valid", lambda w, s: w.listing(True, s)),
    ("construct a,bessell_V", lambda w, s: w.construct(["a", "bessell_V"], s)),
    ("construct bessell_V,missing", lambda w, s: w.construct(["bessell_V", "missing"], s)),
    ("flux a,a", lambda w, s: w.flambda(["a", "a"], s)),
    ("reload bad", lambda w, s: w.load("bad", True, s)),
    ("reload missing", lambda w, s: w.load("missing", True, s)),
    ("load bessell_V", lambda w, s: w.load("bessell_V", False, s)),
]
MORE = [
    ("load short", lambda w, s: w.load("short", None, s)),
    ("load text", lambda w, s: w.load("text", None, s)),
    ("flux bessell_V,missing", lambda w, s: w.flambda(["bessell_V", "missing"], s)),
    ("load shipped bessell_V", lambda w, s: w.load("shipped bessell_V", None, s)),
    ("load ./a", lambda w, s: w.load("./a", None, s)),
    ("reload elsewhere/../a", lambda w, s: w.load("elsewhere/../a", True, s)),
    ("flux elsewhere/../a, a", lambda w, s: w.flambda(["elsewhere/../a", "a"], s)),
]

TEMPLATES = None


def step(w, op):
    name, fn = op
    if name == "replace file a":
        w.files["a"] = 2 if w.files.get("a") != 2 else 3
        w.bad.discard("a")
        put(w.d, "a", w.files["a"])
    elif name == "delete file a":
        if os.path.exists(os.path.join(w.d, "a.dat")):
            os.unlink(os.path.join(w.d, "a.dat"))
        w.files.pop("a", None)
        w.bad.discard("a")
    elif name == "spoil file a":
        with open(os.path.join(w.d, "a.dat"), "w") as fp:
            fp.write(BAD["bad"])
        w.files.pop("a", None)
        w.bad.add("a")
    elif name == "make file missing":
        put(w.d, "missing", 3)
        w.files["missing"] = 3
    else:
        fn(w, name)


def run(ch, ops, depth):
    w = World()
    try:
        done = []
        for i in range(depth):
            op = ch.pick("operation %d" % (i + 1), ops)
            done.append(op[0])
            step(w, op)
            if ch.fresh:
                w.same(" > ".join(done) + ":")
                ch.checked()
        return "%s %s" % (len(w.reg), sorted(str(v) for o, v in w.reg.values()))
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def setup():
    global TEMPLATES
    TEMPLATES = kc.template_file(2)
    ref.band("bessell_V")


@check.harness(isolate=True)
def histories(tier):
    """every sequence of 3 (thorough: 4) operations out of 16: loads and reloads of a good, a missing and an invalid response,
    replacing, deleting, spoiling and creating files, listings with and without validity checking, constructions of fitting objects
    and flux conversions with known and unknown responses"""
    setup()
    ops = [Op(o) for o in OPS]
    return lambda ch: run(ch, ops, 3 if tier == "quick" else 4)


@check.harness(isolate=True)
def pairs(tier):
    """every sequence of 2 (thorough: 3) operations out of 23, adding two more kinds of invalid files, the shipped response named like one of the directory
    and other spellings of a name (each an entry of its own)"""
    setup()
    ops = [Op(o) for o in OPS + MORE]
    return lambda ch: run(ch, ops, 2 if tier == "quick" else 3)


@check.harness(isolate=True, timeout=300)
def shipped(tier):
    """the shipped directory: listing with and without validity checking, before or after other loads, twice"""
    good = set(ref_names())
    every = {x[:-4] for x in os.listdir(os.path.join(ref.DATA, "responses")) if x.endswith(".dat")}

    def body(ch):
        first = ch.pick("before", ("nothing", "sdss_g0", "unreadable response", "construct"))
        f = RM.ResponseDict()
        keep = None
        if first == "sdss_g0":
            f.load_response("sdss_g0")
            keep = f["sdss_g0"]
        elif first == "unreadable response":
            try:
                f.load_response("blah")
                raise Violation("loading blah.dat did not raise")
            except Violation:
                raise
            except Exception:                               # noqa: BLE001
                pass
        elif first == "construct":
            kcorrect.kcorrect.Kcorrect(responses=["sdss_g0", "sdss_r0"], templates=kcorrect.template.Template(
                filename=kc.template_file(2)), redshift_range=[0., 0.1], nredshift=3)
            keep = f["sdss_g0"]
        order = ch.pick("listing", ((False, True), (True, False), (True, True)))
        for valid in order:
            got = RM.all_responses(check_validity=valid)
            need(len(got) == len(set(got)) and set(got) == (good if valid else every), "lists differ by",
                 lambda: set(got) ^ (good if valid else every))
            if valid:
                need(good <= set(f) and not (set(f) - good), "registry differs by", lambda: set(f) ^ good)
        need(keep is None or f["sdss_g0"] is keep, "sdss_g0 is another object")
        for n in sorted(good)[::7]:
            need(kc.close(f[n].lambda_eff, ref.band(n).lambda_eff(), 1e-5), n, "is another response")
        ch.checked()
        return first
    return body
