"""C17 calls do not modify their inputs or later results"""
import copy

from mc.engine import Check, need
from mc.world import CALLS, EVENTS, call, equal, freeze, pristine, scribble

check = Check("C17", assumptions=[
    "Each sequence runs in its own process, starting from the same freshly built objects; every result is compared with that of the same "
    "call made first in such a process. Random draws are scripted and restart with every call.",
    "Callers own what calls return: results are overwritten in place after they were compared (except for methods documented to hand back "
    "their arguments)."],
    rule="Executions are all sequences of public calls up to the depth bound, with the caller's arrays shared by all calls.")


class Op(tuple):
    @property
    def __name__(self):
        return self[0]


def run(ch, worlds, ops, depth, full=None):
    kind = ch.pick("arguments", sorted(worlds))
    c, want = worlds[kind]
    done = [kind]
    for i in range(depth if full is None or kind in full else 1):
        op = ch.pick("call %d" % (i + 1), ops)
        done.append(op[0])
        what = " > ".join(done) + ":"
        r = call(c, op[1])
        if ch.fresh:
            if op[0] in want:
                got = freeze(r)
                need(equal(want[op[0]], got), what, "gave", got, "but as the first call", want[op[0]])
            c.unchanged(what)
            ch.checked()
    return done[-1]


@check.harness(isolate=True)
def pairs(tier):
    """arguments in 4 kinds (single and double precision arrays, strided views, lists; quick: sequences of 2 for arrays only, single calls for
    views and lists): every sequence of 2 out of 47 public calls on
    four objects sharing templates and bands (arrays, single objects, Monte Carlo, all output flags, construction, saving and reloading,
    projections, unit conversions, rejected requests) and 5 events (templates or SEDs redshifted, bandpass reloaded, interpolator
    created)"""
    worlds = {k: pristine(k) for k in ("float32", "float64", "strided float32", "list")}
    ops = [Op(x) for x in CALLS + EVENTS]
    return lambda ch: run(ch, worlds, ops, 2, ("float32", "float64") if tier == "quick" else None)


@check.harness(isolate=True)
def overwritten(tier):
    """double and single precision arguments; the caller overwrites what the first call returned before making any second call"""
    worlds = {k: pristine(k) for k in (("float32",) if tier == "quick" else ("float32", "float64"))}
    ops = [Op(x) for x in CALLS]

    def body(ch):
        kind = ch.pick("arguments", sorted(worlds))
        c, want = worlds[kind]
        first = ch.pick("call 1", ops)
        r = call(c, first[1])
        if first[0] not in ("new fitter with default range",):
            scribble(r)
        c.unchanged(first[0] + ", result overwritten:")
        second = ch.pick("call 2", ops)
        got = freeze(call(c, second[1]))
        need(equal(want[second[0]], got), first[0], "(result overwritten) >", second[0], "gave", got, "but as the first call", want[second[0]])
        ch.checked()
        return second[0]
    return body


@check.harness(isolate=True)
def reused(tier):
    """the caller fills the same arrays (or lists) with other data between the first call and the second"""
    worlds = {k: (pristine(k)[0],) + pristine(k, True) for k in (("float32", "list") if tier == "quick" else (
        "float32", "float64", "strided float32", "list"))}
    ops = [Op(x) for x in CALLS]

    def body(ch):
        kind = ch.pick("arguments", sorted(worlds))
        c, other, want = worlds[kind]
        first = ch.pick("call 1", ops)
        call(c, first[1])
        c.unchanged(first[0] + ":")
        for k, v in other.a.items():
            if isinstance(v, list):
                c.a[k][:] = copy.deepcopy(v)
            else:
                c.a[k][...] = v
        c.n = other.n
        second = ch.pick("call 2", ops)
        got = freeze(call(c, second[1]))
        what = "%s > the caller's arrays filled anew > %s:" % (first[0], second[0])
        need(equal(want[second[0]], got), what, "gave", got, "but as the first call", want[second[0]])
        c.unchanged(what)
        ch.checked()
        return second[0]
    return body


@check.harness(isolate=True)
def triples(tier):
    """single precision arrays: every sequence of 3 out of 14 (thorough: all 52) calls and events"""
    worlds = {"float32": pristine("float32")}
    names = ("K1.fit_coeffs", "K1.fit_coeffs(mc=2)", "K2.fit_coeffs", "K4.fit_coeffs", "K1.kcorrect", "K1.absmag(all)", "K2.absmag",
             "K1.absmag_mc", "K1.derived", "new object", "save and reload K1", "K1 wrong shape", "templates redshifted to 0.6",
             "bandpass reloaded")
    ops = [Op(x) for x in CALLS + EVENTS if tier != "quick" or x[0] in names]
    return lambda ch: run(ch, worlds, ops, 3)
