"""C30 results do not depend on the surroundings"""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import kc, ref
from mc.engine import Check, need
from mc.surround import bring, first, then

check = Check("C30", assumptions=[
    "kcorrect is imported in every execution anew, in a process that imported only its dependencies (or, harness `started`, in a freshly "
    "started interpreter).",
    "User files named relative to the working directory are there when they are read; the package's own data files stay where they are."],
    rule="Executions are all (working directory, environment, spelling of the import path, kind of files, events between import, construction and use).")


def child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as fp:
                try:
                    pickle.dump(fn(), fp)
                except Exception as e:                      # noqa: BLE001
                    pickle.dump(e, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        x = pickle.load(fp)
    os.waitpid(pid, 0)
    if isinstance(x, Exception):
        raise x
    return x


def own_files(d):
    """Files of the user's in directory d"""
    k = kc.load()
    shutil.copy(kc.template_file(3, 64), os.path.join(d, "own-t.fits"))
    t = k.template.Template(filename=kc.template_file(3, 64))
    k.template.SED(wave=np.linspace(2000., 9000., 300), flux=np.linspace(1., 2., 300)).tofits(os.path.join(d, "own-s.fits"))
    k.kcorrect.Kcorrect(responses=["sdss_g0", "sdss_r0"], templates=t, nredshift=3, redshift_range=[0., 0.4]).tofits(os.path.join(d, "own-k.fits"))


def decoy(d):
    """Files named like those shipped, with something else in them, wherever they might be looked for"""
    src = os.path.join(kc.SRC, "kcorrect", "data")
    names = ["sdss_%s0" % b for b in "ugriz"] + ["galex_NUV", "bessell_V", "bessell_B", "twomass_J", "decam_r"]
    text = "|lambda|pass|\n" + "".join("|%d.|%.1f|\n" % (x, y) for x, y in ((4000, 0), (4100, .5), (4200, 1), (4300, .5), (4400, 0)))
    for sub in ("", "data/responses", "responses", "kcorrect/data/responses", "src/kcorrect/data/responses"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for n in names:
            with open(os.path.join(d, sub, n + ".dat"), "w") as fp:
                fp.write(text)
    for kind in ("templates", "basel"):
        for f in os.listdir(os.path.join(src, kind)):
            for sub in ("", "data/" + kind, kind, "kcorrect/data/" + kind):
                os.makedirs(os.path.join(d, sub), exist_ok=True)
                if kind == "templates" and f.endswith(".fits"):
                    if not os.path.exists(os.path.join(d, sub, f)):
                        shutil.copy(kc.template_file(3, 64), os.path.join(d, sub, f))
                elif kind == "basel":
                    with open(os.path.join(d, sub, f), "w") as fp:
                        fp.write("nothing here\n")


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def setup():
    base = tempfile.mkdtemp(dir=kc.scratch())
    for d in ("empty", "decoy", "mine"):
        os.mkdir(os.path.join(base, d))
    child(lambda: (decoy(os.path.join(base, "decoy")), own_files(os.path.join(base, "mine")))[0])
    for f in os.listdir(os.path.join(base, "mine")):
        shutil.copy(os.path.join(base, "mine", f), os.path.join(base, "decoy", f))
    os.symlink(kc.SRC, os.path.join(base, "link"))

    def plain(relative):
        if relative:
            os.chdir(os.path.join(base, "mine"))
        k = bring(kc.SRC)
        return then(k, first(k, relative), relative)
    want = {r: child(lambda r=r: plain(r)) for r in (False, True)}
    for n in ("sdss_r0", "bessell_V", "bessell_B"):
        need(np.allclose(want[False][n][0], ref.band(n).wave, rtol=1e-6) and np.allclose(want[False][n][1], ref.band(n).resp, atol=1e-6), n)
    return base, want


def go(d):
    return lambda b: os.chdir(d if os.path.isabs(d) else os.path.join(b, d))


def nowhere(b):
    d = tempfile.mkdtemp(dir=b)
    os.chdir(d)
    os.rmdir(d)


def setting(**kw):
    def f(b):
        for k, v in kw.items():
            os.environ[k] = v.replace("BASE", b)
    return f


def clear(b):
    os.environ.clear()


DIRS = [Op(x) for x in (("as started", lambda b: None), ("/", go("/")), ("empty", go("empty")), ("with decoys", go("decoy")),
                        ("package data", lambda b: os.chdir(os.path.join(kc.SRC, "kcorrect", "data", "responses"))), ("removed", nowhere))]
ENVS = [Op(x) for x in (
    ("as started", lambda b: None), ("empty", clear), ("KCORRECT_DIR with decoys", setting(KCORRECT_DIR="BASE/decoy")),
    ("KCORRECT_DIR without files", setting(KCORRECT_DIR="/nowhere")),
    ("every variable of old", setting(KCORRECT_DIR="BASE/decoy", KCORRECT_DATA="BASE/decoy/data", DATA_DIR="BASE/decoy/data", HOME="/nowhere",
                                      TMPDIR="/nowhere", PYTHONPATH="BASE/decoy", PWD="/nowhere")))]
PATHS = ["as it is", "with a slash", "relative", "through a link", "with dots"]
EVENTS = [Op(x) for x in (
    ("nothing", lambda b: None), ("to the directory with decoys", go("decoy")), ("to /", go("/")), ("to a removed directory", nowhere),
    ("KCORRECT_DIR set", setting(KCORRECT_DIR="BASE/decoy")), ("environment emptied", clear))]


def spelled(path, b):
    if path == "as it is":
        return kc.SRC
    if path == "with a slash":
        return kc.SRC + "/"
    if path == "relative":
        return os.path.relpath(kc.SRC)
    if path == "through a link":
        return os.path.join(b, "link")
    return kc.SRC + "/../" + os.path.basename(kc.SRC)


def differs(want, got):
    """Keys whose values differ"""
    return [k for k in want if not close(want[k], got.get(k))]


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and any(isinstance(x, (list, str)) for x in a):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, list):
        return isinstance(b, list) and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-5, atol=0., equal_nan=True)
    return a == b if isinstance(a, str) else bool(np.isclose(a, b, rtol=1e-5, atol=0.))


def compare(want, got, what):
    d = differs(want, got)
    need(not d, what, "give other", d, lambda: "such as %s: %s instead of %s" % (d[0], str(got.get(d[0]))[:300], str(want[d[0]])[:300]))


@check.harness(isolate=True)
def imported(tier):
    """6 working directories (decoy files named like the shipped ones, removed directory, package data, ...) x 5 environments x 5 spellings
    of the import path, and afterwards 6 events: shipped bandpasses, listing, templates, stellar models, fits, magnitudes and derived
    quantities are those of plain surroundings"""
    base, want = setup()

    def body(ch):
        d = ch.pick("working directory", DIRS)
        e = ch.pick("environment", ENVS)
        p = ch.pick("import path", PATHS)
        ev = ch.pick("after import", EVENTS if tier != "quick" or (d[0], e[0]) == ("as started",) * 2 else EVENTS[:2])
        if p == "relative" and d[0] == "removed":
            return None
        d[1](base)
        e[1](base)
        k = bring(spelled(p, base))
        need(os.path.realpath(k.__file__).startswith(os.path.realpath(kc.SRC)), "imported", k.__file__)
        ev[1](base)
        what = "directory %s, environment %s, import path %s, then %s:" % (d[0], e[0], p, ev[0])
        compare(want[False], then(k, first(k, False), False), what)
        ch.checked()
        return d[0]
    return body


def remove(b):
    for f in ("own-t.fits", "own-s.fits", "own-k.fits"):
        os.unlink(f)


def replace(b):
    """Others are put in their places"""
    for f in ("own-t.fits", "own-s.fits", "own-k.fits"):
        with open(f + ".new", "w") as fp:
            fp.write("something else\n")
        os.rename(f + ".new", f)


def rename(b):
    d = os.getcwd()
    os.rename(d, d + "-moved")


@check.harness(isolate=True)
def relative(tier):
    """user files (templates, spectrum, saved object) named relative to the working directory, with the directory and environment changing
    before, and the directory, environment or the files themselves (removed, replaced, directory renamed) in 1 or 2 events after they were
    read: objects keep giving the same"""
    base, want = setup()
    later = EVENTS + [Op(x) for x in (("files removed", remove), ("files replaced", replace), ("directory renamed", rename))]

    def body(ch):
        mine = tempfile.mkdtemp(dir=base)
        try:
            for f in os.listdir(os.path.join(base, "mine")):
                shutil.copy(os.path.join(base, "mine", f), mine)
            e = ch.pick("environment", ENVS if tier != "quick" else ENVS[:3])
            before = ch.pick("imported", ["in the directory", "elsewhere"])
            if before != "elsewhere":
                os.chdir(mine)
            e[1](base)
            k = bring(kc.SRC)
            os.chdir(mine)
            o = first(k, True)
            what = "environment %s, imported %s, objects made" % (e[0], before)
            for i in range(2):
                ev = ch.pick("event %d" % (i + 1), later)
                if ev[0].startswith(("files", "directory")) and not os.path.exists("own-t.fits"):
                    return None
                what += " > " + ev[0]
                if i == 1 and ev[0] == "directory renamed" and os.path.realpath(os.getcwd()) == os.path.realpath(os.path.join(base, "decoy")):
                    return None
                if ev[0].startswith(("files", "directory")) and os.path.realpath(os.getcwd()) == os.path.realpath(os.path.join(base, "decoy")):
                    return None
                ev[1](base)
            compare(want[True], then(k, o, True), what + ":")
            ch.checked()
        finally:
            shutil.rmtree(mine, ignore_errors=True)
            shutil.rmtree(mine + "-moved", ignore_errors=True)
        return e[0]
    return body


FLAGS = [[], ["-O"], ["-OO"], ["-I"], ["-E"], ["-X", "utf8=1"], ["-X", "utf8=0"], ["-X", "dev"]]
VARS = [dict(), dict(LC_ALL="C"), dict(LANG="C.UTF-8", LC_ALL="C.UTF-8"), dict(PYTHONHASHSEED="1"), dict(PYTHONHASHSEED="77"),
        dict(OPENBLAS_NUM_THREADS="4", OMP_NUM_THREADS="4"), dict(TZ="Asia/Tokyo")]


@check.harness()
def started(tier):
    """freshly started interpreters with 8 sets of flags (optimised, isolated, UTF-8 mode, development mode) or 7 settings of locale, hash
    seed, threads and time zone (thorough: every combination), in 2 working directories"""
    base, want = setup()

    def body(ch):
        flags = ch.pick("flags", FLAGS)
        vs = ch.pick("variables", VARS if tier != "quick" or not flags else VARS[:1])
        d = ch.pick("working directory", ["mine", "decoy"])
        out = tempfile.mktemp(dir=base)
        env = dict({k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONHASHSEED"))}, **vs)
        p = subprocess.run([sys.executable, "-B"] + flags + [os.path.join(os.path.dirname(kc.__file__), "surround.py"), kc.SRC, out, "relative"],
                           cwd=os.path.join(base, d), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        what = "python %s with %s in the directory %s:" % (" ".join(flags), vs, d)
        need(p.returncode == 0 and os.path.exists(out), what, p.stdout.decode(errors="replace")[-800:])
        with open(out, "rb") as fp:
            got = pickle.load(fp)
        os.unlink(out)
        need(got.pop("where").startswith(os.path.realpath(kc.SRC)), what, "imported another kcorrect")
        compare(want[True], got, what)
        ch.checked()
        return str(flags)
    return body
