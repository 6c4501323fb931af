"""C19 concurrent use of the response registry is safe"""
import os
import shutil
import sys

import numpy as np

from mc import sched
from mc.engine import Check, Violation, need

sched.install()
from mc import kc, ref                                       # noqa: E402

kcorrect = kc.load()
check = Check("C19", assumptions=[
    "One thread runs at a time (the interpreter lock); scheduling points are every bytecode instruction of the registry's own functions "
    "(singleton creation, load_response, other methods of ResponseDict), every line of Response construction and reading and of "
    "all_responses, and every lock operation. Numerical set-up of a response (projection, interpolation) is one step.",
    "Every execution starts from freshly executed kcorrect modules, in which the registry has never been used.",
    "Text files are parsed once and copies given out, except that `instructions` reads the Basel files for real."],
    rule="Executions are all schedules with at most the stated number of preemptions (switches away from a thread that could continue); "
         "switches at blocking or ending are free.")

_codes = []


def fresh():
    """Execute kcorrect's modules again, into the same module objects"""
    if not _codes:
        for m in ("template", "response", "utils", "fitter", "kcorrect"):
            mod = sys.modules["kcorrect." + m]
            with open(mod.__file__) as fp:
                _codes.append((mod, compile(fp.read(), mod.__file__, "exec")))
    for mod, code in _codes:
        exec(code, mod.__dict__)
    if _basel:
        kcorrect.utils.read_basel = _basel[0]


_basel = []
_tables = {}
_real_ascii = kc.astropy.io.ascii.read
_real_basel = kcorrect.utils.read_basel


def quick_reads(basel, how):
    """Parsing text files is not what is explored: parse each once per process tree, give out copies"""
    def ascii_read(table, *a, **kw):
        # what a relative name means depends on the working directory, which all threads share
        key = (os.path.join(os.getcwd(), str(table)), repr(a), repr(sorted(kw.items())))
        if key not in _tables:
            _tables[key] = _real_ascii(table, *a, **kw)
        return _tables[key].copy()
    kc.astropy.io.ascii.read = ascii_read

    def read_basel(filename=None):
        if filename not in _tables:
            _tables[filename] = _real_basel(filename)
        info, wave, flux = _tables[filename]
        return {k: v.copy() for k, v in info.items()}, wave.copy(), flux.copy()
    _basel[:] = [read_basel] if basel else []
    fresh()
    instrument(how)
    for t in (A, B, C):
        kcorrect.response.Response().fromdat(t + ".dat")


SKIP = {"project", "set_interp", "set_lambda_eff", "set_fwhm_limits", "set_solar_magnitude", "set_vega2ab", "response_dtype", "<lambda>",
        "<listcomp>", "<genexpr>"}


def watch(code):
    if code.co_name == "<module>":
        return None
    q = code.co_qualname
    if code.co_name in SKIP:
        return None
    if q.startswith("ResponseDict"):
        return "opcode"
    return "line"


def watch_lines(code):
    return "line" if watch(code) else None


def watch_all(code):
    return None if code.co_name == "<module>" else "line"


def instrument(how):
    for mod, code in _codes:
        if mod is kcorrect.response or how is watch_all:
            sched.instrument(code, how)


_magnitudes = {}


def magnitude(name, star):
    if (name, star) not in _magnitudes:
        _magnitudes[name, star] = ref.star_magnitude(ref.band(name), star)
    return _magnitudes[name, star]


def complete(R, name):
    """R is the fully initialised response of name"""
    need(R is not None, name, "is None")
    b = ref.band(name)
    need(R.wave is not None and R.response is not None and len(R.wave) == len(b.wave) and kc.close(R.wave, b.wave, 1e-6), name,
         "seen with wave", lambda: R.wave)
    need(kc.close(R.response, b.resp, 1e-6, atol=1e-6), name, "seen with response", lambda: R.response)
    need(getattr(R, "nwave", None) == len(b.wave), name, "seen without nwave")
    need(R.interp is not None and kc.close(R.interp(b.wave[1:-1]), b.resp[1:-1], 1e-5, atol=1e-6), name, "seen without interpolator")
    need(R.lambda_eff is not None and kc.close(R.lambda_eff, b.lambda_eff(), 1e-5), name, "seen with lambda_eff", lambda: R.lambda_eff)
    for a in ("fwhm", "fwhm_low", "fwhm_high"):
        need(getattr(R, a) is not None, name, "seen without", a)
    for a, star in (("solar_magnitude", "sun"), ("vega2ab", "vega")):
        m = magnitude(name, star)
        got = getattr(R, a, "missing")
        need(got is not None and got != "missing" and abs(float(got) - m) < 1e-3, name, "seen with", a, lambda: got)


class World:
    def __init__(self, ch):
        self.s = sched.Scheduler(ch)
        self.handles = []
        self.loaded = []

    def handle(self):
        h = kcorrect.response.ResponseDict()
        self.handles.append(h)
        return h

    def load(self, name, **kw):
        def f():
            h = self.handle()
            h.load_response(name, **kw)
            self.loaded.append(name)
            self.s.point("after load")
            complete(h[name], name)
        return f

    def missing(self, name):
        def f():
            h = self.handle()
            try:
                h.load_response(name)
            except Violation:
                raise
            except Exception:                               # noqa: BLE001
                self.s.point("after failure")
                need(name not in h, "failed load of", name, "left an entry")
                return
            raise Violation("loading %s did not raise" % name)
        return f

    def look(self, *names, times=2):
        def f():
            h = self.handle()
            for i in range(times):
                for n in names:
                    if n in h:
                        R = h.get(n)
                        complete(R, n)
                self.s.point("look")
        return f

    def hold(self, name):
        """Load, keep the object, and find it complete later"""
        def f():
            h = self.handle()
            h.load_response(name)
            self.loaded.append(name)
            R = h[name]
            complete(R, name)
            self.s.point("holding")
            self.s.point("holding")
            complete(R, name)
        return f

    def listing(self, d, names):
        def f():
            got = kcorrect.response.all_responses(response_dir=d, check_validity=True)
            need(sorted(got) == sorted(names), "listing", got)
            h = self.handle()
            for n in names:
                need(n in h, "listed", n, "is not in the registry")
        return f

    def flambda(self, names):
        def f():
            wave, fl = kcorrect.utils.maggies2flambda(maggies=np.ones(len(names)), responses=names)
            self.handle()
            need(kc.close(wave, [ref.band(n).lambda_eff() for n in names], 1e-5), "wavelengths", wave)
            self.loaded += names
        return f

    def construct(self, names, template):
        def f():
            o = kcorrect.fitter.Fitter(responses=list(names), templates=template, redshift_range=[0., 0.1], nredshift=2)
            o.set_Amatrix()
            self.handle()
            t = ref.Templates(template.filename)
            need(kc.close(o.Amatrix(0.), [ref.band(n).project(t.wave, t.flux) for n in names], 1e-4), "model fluxes", lambda: o.Amatrix(0.))
            self.loaded += names
        return f

    def response(self, name):
        """A response of one's own"""
        def f():
            complete(kcorrect.response.Response(filename=name + ".dat"), name)
            self.handle()
        return f

    def finish(self, fns, free=()):
        cwd = os.getcwd()
        errs = self.s.run(fns)
        moved = os.getcwd()
        os.chdir(cwd)
        for i, e in errs:
            if isinstance(e, Violation):
                raise e
            raise Violation("thread %d raised %s: %s" % (i, type(e).__name__, e))
        need(moved == cwd, "the process was left in directory", moved)
        final = kcorrect.response.ResponseDict()
        for h in self.handles:
            need(h is final, "threads got different registries")
        for n in self.loaded:
            need(n in final, n, "was loaded but is not in the registry")
            complete(final[n], n)
        for n in final:
            if n not in free:
                need(n in self.loaded, n, "is in the registry but no load of it returned")


A, B, C = None, None, None


def setup():
    global A, B, C
    A, B, C = kc.bands("b1", "sub/s", "b5")
    for n in (A, B, C):
        ref.band(n)
        magnitude(n, "sun")
        magnitude(n, "vega")


MISSING = "/nonexistent/response"


def scenario(name, w):
    """Threads of a scenario"""
    d = os.path.join(kc.scratch(), "c19dir")
    return {
        "same response": lambda: [w.load(A), w.load(A)],
        "two responses": lambda: [w.load(A), w.load(B)],
        "load and look": lambda: [w.load(A), w.look(A)],
        "load and hold": lambda: [w.hold(A), w.load(A)],
        "reload and look": lambda: [w.load(A, reload=True), w.look(A)],
        "reload and hold": lambda: [w.load(A, reload=True), w.hold(A)],
        "two reloads": lambda: [w.load(A, reload=True), w.load(A, reload=True)],
        "missing and look": lambda: [w.missing(MISSING), w.look(MISSING, A)],
        "missing and load": lambda: [w.missing(MISSING), w.load(A)],
        "missing twice": lambda: [w.missing(MISSING), w.missing(MISSING)],
        "flux conversion and load": lambda: [w.flambda([A]), w.load(A)],
        "list valid and load": lambda: [w.listing(d, ["c19a"]), w.load(A)],
        "list valid twice": lambda: [w.listing(d, ["c19a"]), w.listing(d, ["c19a"])],
    }[name]()


TWO = ("same response", "two responses", "load and look", "load and hold", "reload and look", "reload and hold", "two reloads",
       "missing and look", "missing and load", "missing twice", "flux conversion and load", "list valid and load", "list valid twice")


def makedir():
    d = os.path.join(kc.scratch(), "c19dir")
    os.makedirs(d, exist_ok=True)
    shutil.copy(A + ".dat", os.path.join(d, "c19a.dat"))
    with open(os.path.join(d, "bad.dat"), "w") as fp:
        fp.write("nothing\n")


@check.harness(bound=lambda tier: 2 if tier == "quick" else 3, timeout=60)
def creation(tier):
    """two and three threads that only obtain the registry: every instruction-level schedule with at most 2 (thorough: 3) preemptions
    (three threads: 1 and 2)"""
    fresh()
    instrument(watch)

    def body(ch):
        fresh()
        # with three threads, one preemption fewer
        n = ch.pick("threads", (2, 3), costs=(0, 1))
        w = World(ch)
        errs = w.s.run([w.handle] * n)
        need(not errs, "thread raised", errs)
        need(len(w.handles) == n and all(h is kcorrect.response.ResponseDict() for h in w.handles), "threads got different registries")
        ch.checked()
        return "%d %d" % (n, w.s.steps)
    return body


@check.harness(bound=1, timeout=60)
def instructions(tier):
    """13 pairs of threads (loads of the same or different responses, look-ups, reloads, failing loads, flux conversion, listings with
    validity checking): every instruction-level schedule with at most 1 preemption, registry used before or not"""
    setup()
    makedir()

    quick_reads(False, watch)

    def body(ch):
        fresh()
        name = ch.pick("threads", TWO)
        used = ch.pick("registry used before", (False, True))
        if used:
            kcorrect.response.ResponseDict()
        w = World(ch)
        if name.startswith("reload"):
            kcorrect.response.ResponseDict().load_response(A)
            w.loaded.append(A)
        w.finish(scenario(name, w), free=("c19a",))
        ch.checked()
        return "%s %d" % (name, w.s.steps)
    return body


@check.harness(bound=lambda tier: 2 if tier == "quick" else 3, timeout=60)
def lines(tier):
    """the same pairs (quick: 3 of them): every line-level schedule with at most 2 (thorough: 3) preemptions"""
    setup()
    makedir()
    quick_reads(True, watch_lines)
    names = TWO if tier != "quick" else ("same response", "reload and hold", "missing and load")

    def body(ch):
        fresh()
        name = ch.pick("threads", names)
        w = World(ch)
        if name.startswith("reload"):
            kcorrect.response.ResponseDict().load_response(A)
            w.loaded.append(A)
        w.finish(scenario(name, w), free=("c19a",))
        ch.checked()
        return "%s %d" % (name, w.s.steps)
    return body


@check.harness(bound=1, timeout=60)
def three(tier):
    """three threads (loads of the same response, of two, look-ups, constructions of fitting objects): every line-level schedule with at
    most 1 preemption and every order of starting and ending"""
    setup()
    quick_reads(True, watch_lines)
    t = [kcorrect.template.Template(filename=kc.template_file(2, 48)) for i in range(3)]

    def body(ch):
        fresh()
        name = ch.pick("threads", ("same", "two and look", "constructions"))
        w = World(ch)
        fns = dict(same=lambda: [w.load(A), w.load(A), w.load(A)], **{
            "two and look": lambda: [w.load(A), w.load(B), w.look(A, B)],
            "constructions": lambda: [w.construct([A, B], t[0]), w.construct([B, A], t[1])]})[name]()
        w.finish(fns)
        ch.checked()
        return "%s %d" % (name, w.s.steps)
    return body


@check.harness(bound=1, timeout=120)
def everything(tier):
    """5 pairs of threads (loads of the same response or two, a load and a flux conversion, two constructions of fitting objects, two
    responses outside the registry; thorough: three threads as well) with every line of every kcorrect function a scheduling point (reading of the solar and stellar
    models, projections and set-up included): every schedule with at most 1 preemption"""
    setup()
    quick_reads(False, watch_all)
    t = [kcorrect.template.Template(filename=kc.template_file(2, 48)) for i in range(2)]
    more = ("three loads", "three own", "load, flux, construction") if tier != "quick" else ()

    def body(ch):
        fresh()
        name = ch.pick("threads", ("same", "two", "flux", "constructions", "own") + more)
        w = World(ch)
        w.s.limit = 60000
        fns = dict(same=lambda: [w.load(A), w.load(A)], two=lambda: [w.load(A), w.load(B)], flux=lambda: [w.flambda([A, B]), w.load(B)],
                   constructions=lambda: [w.construct([A], t[0]), w.construct([A], t[1])],
                   own=lambda: [w.response(A), w.response(B)], **{
                       "three loads": lambda: [w.load(A), w.load(B), w.load(A)],
                       "three own": lambda: [w.response(A), w.response(B), w.response(C)],
                       "load, flux, construction": lambda: [w.load(A), w.flambda([B, A]), w.construct([C, A], t[0])]})[name]()
        w.finish(fns)
        ch.checked()
        return "%s %d" % (name, w.s.steps)
    return body
