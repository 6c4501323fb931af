"""C22 an incomplete save is never mistaken for a complete one"""
import copy
import os
import pickle
import resource
import shutil
import signal
import sys

import numpy as np

from mc import kc
from mc.engine import Check, Violation, need

kcorrect = kc.load()
KC = kcorrect.kcorrect
Template = kcorrect.template.Template
SED = kcorrect.template.SED
check = Check("C22", assumptions=[
    "A crash is the death of the process: completed writes stay, in order.  It is made by the kernel, which kills the process at the chosen "
    "byte of the chosen file being written (RLIMIT_FSIZE), or by leaving at a chosen open, removal or renaming of a file.",
    "Running out of space is a write that the kernel cuts short at the chosen byte and fails from then on, for the rest of the save or "
    "until the next file is opened for writing.",
    "A file left over from an earlier complete save may be what is read after an interrupted one."],
    rule="Executions are all interruption points of a save: every event and the chosen byte offsets of every file being written.")

SPEC = dict(
    plain=dict(bands=("b1", "b3"), out=None, rmap=None, nt=2, n=3),
    mapped=dict(bands=("b1", "b3", "b4"), out=("b4", "b2"), rmap=("b3", "b3"), nt=3, n=4, ab=True),
    one=dict(bands=("b2",), out=("b5",), rmap=("b2",), nt=1, n=2),
    full=dict(bands=("b1", "b3", "b4"), out=("b2", "b4", "b5"), rmap=("b3", "b1", "b1"), nt=4, n=60),     # no padding after the last data
    longer=dict(bands=("b1", "b3", "b4"), out=("b2", "b4", "b5"), rmap=("b3", "b1", "b1"), nt=4, n=120),
    images=dict(bands=("b1", "b3"), out=None, rmap=None, nt=3, n=3, image=True),
    spectra=dict(bands=("b1", "b3"), out=("b4",), rmap=("b1",), nt=2, n=3, spectra=True))     # templates without physical properties
OTHER = dict(bands=("b4", "b5", "b1"), out=("b1",), rmap=("b4",), nt=2, n=5)


def make(s):
    path = kc.template_file(s["nt"], 40)
    if s.get("image"):
        path = os.path.join(kc.scratch(), "c22image.fits")
        if not os.path.exists(path):
            kc.write_templates(path, *kc.template_arrays(s["nt"], 40), binimage=True)
    return KC.Kcorrect(responses=kc.bands(*s["bands"]), responses_out=None if s["out"] is None else kc.bands(*s["out"]),
                       responses_map=None if s["rmap"] is None else kc.bands(*s["rmap"]), templates=(SED if s.get("spectra") else Template)(filename=path),
                       redshift_range=[0., 0.5], nredshift=s["n"], abcorrect=s.get("ab", False))


def state(o):
    """Everything an object was saved with, and what it computes"""
    t = o.templates
    r = dict(bands=list(map(str, o.responses)), out=list(map(str, o.responses_out)), map=list(map(str, o.responses_map)),
             imap=[int(i) for i in o.imap], rng=[float(x) for x in o.redshift_range], n=int(o.nredshift), ab=bool(o.abcorrect))
    arrays = dict(z=o.redshifts, wave=t.restframe_wave, flux=t.restframe_flux, a=o.Amatrix(o.redshifts), aout=o.AmatrixOut(o.redshifts))
    r["properties"] = isinstance(t, Template)
    if r["properties"]:
        for p in ("intsfh", "mremain", "mets", "m50", "m300", "m1000"):
            arrays[p] = getattr(t, p)
    z = np.float32([0.1, 0.35])
    nb, nt = len(r["bands"]), t.nsed
    m = np.float32(1e-9 * (1. + np.arange(2 * nb).reshape(2, nb) % 3))
    w = np.float32(1e18 * (1. + np.arange(2 * nb).reshape(2, nb) % 2))
    c = np.float32(1. + np.arange(2 * nt).reshape(2, nt) % 3)
    arrays.update(fit=o.fit_coeffs(redshift=z, maggies=m, ivar=w), k=o.kcorrect(redshift=z, coeffs=c),
                  am=o.absmag(redshift=z, maggies=m, ivar=w, coeffs=c))
    if r["properties"]:
        arrays["mtol"] = o.derived(redshift=z, coeffs=c)["mtol"]
    return r, {k: np.array(v, dtype=np.float64) for k, v in arrays.items()}


def differs(a, b):
    """What differs between two states, or None"""
    for k in b[0]:
        if a[0][k] != b[0][k]:
            return "%s = %s, not %s" % (k, a[0][k], b[0][k])
    for k in b[1]:
        if not kc.close(a[1][k], b[1][k], 1e-5, atol=1e-6 * np.abs(b[1][k]).max(initial=0.)):
            return "%s = %s, not %s" % (k, a[1][k], b[1][k])
    return None


class Fault:
    """What happens to the files in the scratch directory during a save"""

    def __init__(self):
        self.active = None
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        a = self.active
        if a is None:
            return
        if event not in ("open", "os.remove", "os.rename", "os.truncate", "os.chmod", "shutil.move", "os.link", "os.symlink"):
            return
        path = args[0]
        if isinstance(path, bytes):
            path = path.decode(errors="replace")
        if not isinstance(path, str) or not path.startswith(a["dir"]):
            return
        writing = False
        if event == "open":
            mode, flags = args[1], args[2]
            writing = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR)) or any(c in (mode or "") for c in "wax+")
            if not writing:
                return
        if a.get("sizes") is not None:
            a["sizes"].append(a["last"] and os.path.exists(a["last"]) and os.path.getsize(a["last"]) or 0)
            a["last"] = path if writing else a["last"]
        a["events"].append((event, os.path.basename(path), writing))
        if len(a["events"]) - 1 == a.get("kill"):
            os.kill(os.getpid(), signal.SIGKILL)
        if writing:
            n = sum(1 for e in a["events"] if e[2]) - 1
            if n == a.get("file"):
                resource.setrlimit(resource.RLIMIT_FSIZE, (a["limit"], resource.RLIM_INFINITY))
            elif a.get("until next file"):
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


FAULT = Fault()


def child(fn, die):
    """fn() in a child process that is killed (die) or gets an error when the size limit is hit.  Its pickled result, or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:                               # noqa: BLE001
            import traceback
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def room():
    d = os.path.join(kc.scratch(), "c22-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


OLD = ("nothing", "an earlier save", "an earlier save of another object", "something else")


class Fixture:
    def __init__(self, names):
        self.objs = {n: make(SPEC[n]) for n in names}
        self.want = {n: state(o) for n, o in self.objs.items()}
        self.other = make(OTHER)
        self.wother = state(self.other)
        d = room()
        self.file = {}
        for n, o in list(self.objs.items()) + [("other", self.other)]:
            p = os.path.join(d, "x.fits")
            o.tofits(filename=p)
            with open(p, "rb") as fp:
                self.file[n] = fp.read()
            need(n == "other" or differs(state(KC.Kcorrect(filename=p)), self.want[n]) is None, n, "does not survive an undisturbed save")
            os.unlink(p)
        self.plan = {(n, old): self.dry(n, old) for n in names for old in OLD}

    def before(self, d, name, old):
        p = os.path.join(d, "save.fits")
        data = {OLD[0]: None, OLD[1]: self.file[name], OLD[2]: self.file["other"], OLD[3]: b"something else\n" * 400}[old]
        if data is not None:
            with open(p, "wb") as fp:
                fp.write(data)
        return p

    def dry(self, name, old):
        """Events of an undisturbed save, and the final size of every file opened for writing"""
        d = room()
        p = self.before(d, name, old)

        def run():
            a = dict(dir=d, events=[], sizes=[], last=None)
            FAULT.active = a
            self.objs[name].tofits(filename=p)
            FAULT.active = None
            return a["events"], a["sizes"] + [os.path.getsize(p)]
        ev, size = child(run, False)
        need(ev, "no file is written by a save")
        need(differs(state(KC.Kcorrect(filename=p)), self.want[name]) is None, "save over", old, "does not reload")
        # how large each file opened for writing has become by any later event (a larger limit does not matter to it)
        files = []
        opened = [i for i, e in enumerate(ev) if e[2]]
        for i, j in zip(opened, opened[1:] + [len(ev)]):
            files.append(max(size[i + 1:j + 1]))
        shutil.rmtree(d)
        return len(ev), files

    def read(self, p, name, old, what):
        """The file that is left must raise or be a complete object; returns which"""
        res = []
        for how in ("new", "existing"):
            try:
                if how == "new":
                    o = KC.Kcorrect(filename=p)
                else:
                    o = copy.copy(self.other)
                    o.fromfits(filename=p)
            except Violation:
                raise
            except Exception as e:                          # noqa: BLE001
                res.append(type(e).__name__)
                continue
            try:
                got = state(o)
            except Exception as e:                          # noqa: BLE001
                raise Violation("%s: the file read without an error, but the object does not work: %s: %s" % (what, type(e).__name__, e))
            bad = differs(got, self.want[name])
            if bad is None:
                res.append("complete")
            elif old == OLD[2] and differs(got, self.wother) is None:
                res.append("as before")
            else:
                raise Violation("%s: the file read without an error as an object with %s" % (what, bad))
        return " ".join(res)


def offsets(tier, size):
    if tier != "quick":
        step = 20 if size < 60000 else 80
        s = set(range(0, size + 1, step))
    else:
        s = set()
    for b in range(0, size + 2880, 2880):
        for x in ((0, 1, 8, 80, 400, 1500, 2872, 2879) if tier != "quick" else (0, 1, 700, 2879)):
            s.add(b + x)
    return sorted(x for x in s if x <= size)


@check.harness(timeout=60)
def events(tier):
    """the process dies before any of the openings, removals and renamings of files in a save: 6 objects, over nothing, an earlier save of
    the same or another object, or some other file"""
    fx = Fixture(list(SPEC))

    def body(ch):
        name = ch.pick("object", list(SPEC))
        old = ch.pick("over", OLD)
        n, _ = fx.plan[name, old]
        at = ch.pick("dies before event", range(n))
        d = room()
        p = fx.before(d, name, old)

        def run():
            FAULT.active = dict(dir=d, events=[], kill=at)
            fx.objs[name].tofits(filename=p)
            return "survived"
        need(child(run, True) is None, "the save did not get to event", at)
        r = fx.read(p, name, old, "%s over %s, event %d" % (name, old, at))
        shutil.rmtree(d)
        ch.checked(2)
        return "%s %s" % (old, r)
    return body


def cut(fx, d, p, name, nfile, limit, until):
    """A save in which writing stops at byte `limit` of the nth file opened for writing.  In the surviving case, what the object does
    afterwards: (what was raised, problem with the object)"""
    def run():
        o = fx.objs[name]
        a = dict(dir=d, events=[], file=nfile, limit=limit)
        a["until next file"] = until
        FAULT.active = a
        try:
            o.tofits(filename=p)
            err = None
        except Exception as e:                              # noqa: BLE001
            err = "%s: %s" % (type(e).__name__, e)
        FAULT.active = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        with open(p + ".left", "wb") as fp:
            if os.path.exists(p):
                fp.write(open(p, "rb").read())
        try:
            bad = differs(state(o), fx.want[name])
            if bad is None:
                for q in (os.path.join(d, "second.fits"), p):
                    o.tofits(filename=q)
                    bad = bad or differs(state(KC.Kcorrect(filename=q)), fx.want[name])
                bad = bad or differs(state(o), fx.want[name])
        except Exception as e:                              # noqa: BLE001
            bad = "%s: %s" % (type(e).__name__, e)
        return err, bad
    return run


@check.harness(timeout=60)
def torn(tier):
    """the process dies at a byte of any of the files opened for writing (quick: 4 offsets in every 2880-byte block; thorough: every 20th
    byte and 8 per block): 4 objects (thorough: 6), over nothing or an earlier save of another object"""
    names = ["plain", "mapped", "full"] if tier == "quick" else list(SPEC)
    fx = Fixture(names)

    def body(ch):
        name = ch.pick("object", names)
        old = ch.pick("over", (OLD[0], OLD[2]) if tier != "quick" or name == "mapped" else (OLD[0],))
        _, files = fx.plan[name, old]
        f = ch.pick("file", range(len(files)))
        limit = ch.pick("dies at byte", offsets(tier, files[f]))
        d = room()
        p = fx.before(d, name, old)

        def run():
            FAULT.active = dict(dir=d, events=[], file=f, limit=limit)
            fx.objs[name].tofits(filename=p)
            return "survived"
        alive = child(run, True)
        r = fx.read(p, name, old, "%s over %s, file %d cut at %d" % (name, old, f, limit))
        if alive:
            need("complete" in r, "%s over %s: the save got past byte %d of file %d but is not complete: %s" % (name, old, limit, f, r))
        shutil.rmtree(d)
        ch.checked(2)
        return "%s %s" % (alive, r)
    return body


@check.harness(timeout=60)
def space(tier):
    """space runs out at a byte of any of the files opened for writing, for good or until the next is opened: the save raises, the file
    left raises or is complete, and the object works and can be saved afterwards"""
    names = ["plain", "full"] if tier == "quick" else list(SPEC)
    fx = Fixture(names)

    def body(ch):
        name = ch.pick("object", names)
        old = ch.pick("over", (OLD[0], OLD[2]) if tier != "quick" or name == "plain" else (OLD[0],))
        _, files = fx.plan[name, old]
        f = ch.pick("file", range(len(files)))
        until = ch.pick("until", ("the end", "the next file") if f < len(files) - 1 else ("the end",))
        size = files[f]
        # the last blocks more closely
        offs = offsets(tier, size)
        if tier == "quick" and name != "plain":
            offs = [x for x in offs if x > size - 9000]
        limit = ch.pick("full at byte", offs)
        d = room()
        p = fx.before(d, name, old)
        what = "%s over %s, file %d full at %d until %s" % (name, old, f, limit, until)
        res = child(cut(fx, d, p, name, f, limit, until == "the next file"), False)
        need(res is not None, what, "the process died")
        err, bad = res
        if os.path.getsize(p + ".left"):
            os.replace(p + ".left", p)
        elif os.path.exists(p):
            os.unlink(p)
        r = fx.read(p, name, old, what)
        if err is None:
            need(r == "complete complete", what, "the save did not raise, but reading the file gives", r)
        need(bad is None, what, "the object afterwards:", bad)
        shutil.rmtree(d)
        ch.checked(4)
        return "%s %s" % (None if err is None else err.split(":")[0], r)
    return body


@check.harness(timeout=60)
def truncated(tier):
    """a saved file cut at any 80-byte card or (thorough) any byte multiple of 8, or with any 2880-byte block missing or zeroed headers:
    never read as an object with something else in it"""
    names = ["plain", "mapped", "full"] if tier == "quick" else list(SPEC)
    fx = Fixture(names)
    step = 80 if tier == "quick" else 8

    def body(ch):
        name = ch.pick("object", names)
        data = fx.file[name]
        n = ch.pick("length", range(0, len(data), step))
        p = os.path.join(kc.scratch(), "c22t-%d.fits" % os.getpid())
        with open(p, "wb") as fp:
            fp.write(data[:n])
        r = fx.read(p, name, OLD[0], "%s cut at %d of %d" % (name, n, len(data)))
        os.unlink(p)
        ch.checked(2)
        return r
    return body


@check.harness(timeout=60)
def reloaded(tier):
    """objects read from the very file that is saved over: space runs out at a byte (4 per block; thorough: 8) of any of the files opened for
    writing; the object in memory works and can be saved again"""
    names = ["mapped"] if tier == "quick" else ["plain", "mapped", "images", "full"]
    fx = Fixture(names)

    def body(ch):
        name = ch.pick("object", names)
        _, files = fx.plan[name, OLD[1]]
        f = ch.pick("file", range(len(files)))
        limit = ch.pick("full at byte", offsets("quick", files[f]))
        d = room()
        p = fx.before(d, name, OLD[1])
        what = "%s, file %d full at %d" % (name, f, limit)

        def run():
            fx.objs[name] = KC.Kcorrect(filename=p)
            return cut(fx, d, p, name, f, limit, False)()
        res = child(run, False)
        need(res is not None, what, "the process died")
        need(res[1] is None, what, "the object afterwards:", res[1])
        shutil.rmtree(d)
        ch.checked(2)
        return "%s" % (res[0] is None)
    return body
