"""Bounded exhaustive explorer (stateless model checker) for real Python code.

A *harness* is a function body(ch).  It drives the real kcorrect code and, at
every point where something is not fixed (which call comes next, which input
value, which environment answer, which thread runs), asks ch.pick(label,
domain).  The explorer runs the body once for EVERY sequence of answers, depth
first (simplest = index 0 first), optionally bounding the number of
non-default answers ("deviations").  The body compares what the real code did
with a reference model at every step and raises Violation on disagreement.

The nodes of the choice tree are the states, its edges the transitions, and
its leaves complete executions of the real code checked against the model.
"""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The real code broke the property (msg says how)"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class EngineError(Exception):
    pass


def need(cond, *msg):
    """Raise Violation unless cond"""
    if not cond:
        raise Violation(" ".join(str(m() if callable(m) else m) for m in msg))


class Ch:
    """Answers of one execution: a prescribed prefix, then defaults"""

    def __init__(self, prefix=(), labels=None):
        self.prefix = list(prefix)
        self.labels = labels      # [(label, n)] recorded when prefix was made
        self.choices = []
        self.points = []          # (label, n, costs)
        self.values = []
        self.notes = []
        self.nchecks = 0

    def pick(self, label, domain, costs=None):
        """Choose an element of domain.  costs[i] is what answer i adds to the
        deviation count (default 0: unrestricted choice)."""
        n = len(domain)
        if n == 0:
            raise EngineError("empty domain at " + label)
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if self.labels is not None and i < len(self.labels):
                if self.labels[i] != (label, n):
                    raise Violation("execution is not repeatable: at choice %d the code asked %r, "
                                    "but with the same answers it asked %r before"
                                    % (i, (label, n), self.labels[i]))
            if not 0 <= c < n:
                raise EngineError("choice %d out of range at %s (%d)" % (c, label, n))
        else:
            c = 0
        self.choices.append(c)
        self.points.append((label, n, costs))
        self.values.append(domain[c])
        return domain[c]

    def flag(self, label):
        return self.pick(label, (False, True))

    @property
    def fresh(self):
        """False while the execution repeats a prefix that an earlier execution already went through (and checked): the last answer
        given is not a new one."""
        return len(self.choices) >= len(self.prefix)

    def note(self, *a):
        """Human-readable trace of the execution, kept for counterexamples"""
        if len(self.notes) < 400:
            self.notes.append(" ".join(str(x) for x in a))

    def checked(self, n=1):
        """Count model/implementation comparisons"""
        self.nchecks += n


_shown = 0


def _short(v):
    if hasattr(v, "__name__"):
        return v.__name__
    r = " ".join(repr(v).split())
    return r if len(r) < 160 else r[:150] + "..."


class _TooLong(BaseException):
    pass


def _alarm(signum, frame):
    raise _TooLong()


def run_one(body, prefix, labels=None, timeout=120):
    """One execution -> dict"""
    global _shown
    ch = Ch(prefix, labels)
    out = None
    err = None
    key = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        out = body(ch)
        signal.alarm(0)
    except _TooLong:
        err = "execution did not finish within %d s" % timeout
    except Violation as v:
        err, key = v.msg, v.key
    except EngineError:
        raise
    except Exception as e:                                  # noqa: BLE001
        tb = traceback.format_exc()
        err = "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-3000:])
    finally:
        signal.alarm(0)
    if err is None and len(ch.choices) < len(ch.prefix):
        err = "execution is not repeatable: it ended before the recorded choices did"
    values = None
    if err is not None or _shown < 4:
        _shown += 1
        values = [_short(v) for v in ch.values]
    return dict(choices=ch.choices, points=ch.points, values=values, notes=ch.notes, nchecks=ch.nchecks,
                out=None if out is None else str(out), err=err, key=key)


def run_isolated(body, prefix, labels=None, timeout=120):
    """run_one in a forked child, so nothing it does outlives it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = run_one(body, prefix, labels, timeout)
            except EngineError as e:
                res = dict(engine=str(e))
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:                               # noqa: BLE001
            code = 9
        os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout + 10
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        return dict(choices=list(prefix), points=[("?", 1, None)] * len(prefix), notes=[], nchecks=0,
                    out=None, err="execution did not finish within %d s" % timeout, key=None)
    if not buf:
        return dict(choices=list(prefix), points=[("?", 1, None)] * len(prefix), notes=[], nchecks=0,
                    out=None, err="the process running the execution died", key=None)
    res = pickle.loads(buf)
    if "engine" in res:
        raise EngineError(res["engine"])
    return res


def _alternatives(res, prefix, bound):
    """Unexplored siblings along an execution (deepest last)"""
    alts = []
    cost = 0
    for i, (label, n, costs) in enumerate(res["points"]):
        c = res["choices"][i]
        if i >= len(prefix):
            for a in range(1, n):
                extra = costs[a] if costs is not None else 0
                if bound is not None and cost + extra > bound:
                    continue
                alts.append((res["choices"][:i] + [a],
                             [(p[0], p[1]) for p in res["points"][:i + 1]]))
        if costs is not None:
            cost += costs[c]
    return alts


class Harness:
    def __init__(self, maker, tier, bound=None, isolate=False, timeout=100):
        self.name = maker.__name__
        self.maker = maker
        self.tier = tier
        self.body = None
        self.bound = bound
        self.isolate = isolate
        self.timeout = timeout
        self.rule = " ".join((maker.__doc__ or "").split())

    def prepare(self):
        """Build the fixtures.  What goes wrong here goes wrong in the code under test"""
        if self.body is None:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(300)
            try:
                self.body = self.maker(self.tier)
            except (Exception, _TooLong) as e:             # noqa: BLE001
                err = "preparing the harness failed: %s: %s\n%s" % (
                    type(e).__name__, e, traceback.format_exc()[-3000:])

                def body(ch):
                    raise Violation(err)
                self.body = body
            finally:
                signal.alarm(0)

    def run(self, prefix, labels=None):
        if self.isolate:
            return run_isolated(self.body, prefix, labels, self.timeout)
        return run_one(self.body, prefix, labels, self.timeout)


class Stats:
    def __init__(self):
        self.executions = 0
        self.states = 1
        self.transitions = 0
        self.checks = 0
        self.maxdepth = 0
        self.outs = {}
        self.samples = []
        self.viol = []

    def add(self, res, prefix):
        self.executions += 1
        new = max(len(res["points"]) - max(len(prefix) - 1, 0), 0)
        self.states += new
        self.transitions += new
        self.checks += res["nchecks"]
        self.maxdepth = max(self.maxdepth, len(res["points"]))
        if res["out"] is not None and len(self.outs) < 200000:
            h = hashlib.md5(res["out"].encode()).digest()[:8]
            self.outs[h] = self.outs.get(h, 0) + 1
        if len(self.samples) < 2 and res["points"] and res.get("values"):
            self.samples.append(dict(choices=["%s=%s" % (p[0], v) for p, v in
                                              zip(res["points"], res["values"])][:40],
                                     outcome=(res["out"] or "")[:300], trace=res["notes"][:20]))
        if res["err"] is not None:
            self.viol.append(dict(choices=res["choices"], labels=[(p[0], p[1]) for p in res["points"]],
                                  values=res.get("values") or [], msg=res["err"], key=res["key"], notes=res["notes"]))

    def merge(self, o):
        self.executions += o.executions
        self.states += o.states - 1
        self.transitions += o.transitions
        self.checks += o.checks
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        for k, v in o.outs.items():
            self.outs[k] = self.outs.get(k, 0) + v
        if len(self.samples) < 2:
            self.samples += o.samples[:2 - len(self.samples)]
        self.viol += o.viol


def _work(harness, stack, quantum, known):
    """Explore depth first for up to quantum seconds; return what is left"""
    st = Stats()
    st.states = 1
    end = time.time() + quantum
    while stack:
        prefix, labels = stack.pop()
        res = harness.run(prefix, labels)
        st.add(res, prefix)
        if res["err"] is not None and res["key"] not in known:
            break
        stack.extend(reversed(_alternatives(res, prefix, harness.bound)))
        if time.time() > end:
            break
    return st, stack


def explore(harness, deadline, known=(), nproc=NPROC):
    """Explore the whole (bounded) choice tree in parallel forked workers.
    Returns (Stats, complete)."""
    total = Stats()
    pending = [([], [])]
    running = {}      # fd -> (pid, bytearray, job)
    stop = False
    complete = True
    err = None
    while pending or running:
        while pending and len(running) < nproc and not stop:
            if len(pending) >= nproc and not running:
                k = max(1, min(len(pending) // nproc, 64))
            else:
                k = max(1, min(len(pending) // (2 * nproc), 64))
            job = pending[-k:]
            del pending[-k:]
            first = total.executions == 0 and not running
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        out = _work(harness, job, 0.05 if first else 1.0, known)
                    except EngineError as e:
                        out = "engine: " + str(e)
                    except BaseException:                   # noqa: BLE001
                        out = "engine: " + traceback.format_exc()
                    data = pickle.dumps(out)
                    with os.fdopen(w, "wb") as fp:
                        fp.write(data)
                except BaseException:                       # noqa: BLE001
                    code = 9
                os._exit(code)
            os.close(w)
            running[r] = (pid, bytearray(), job)
        if stop and not running:
            break
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            if d:
                running[fd][1].extend(d)
                continue
            pid, buf, job = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if not buf:
                err = err or "a worker died on " + repr(job[-1][0])
                # the code under test killed the process: report it on the job's first path
                total.viol.append(dict(choices=job[-1][0], labels=job[-1][1], key=None, notes=[], values=[],
                                       msg="the process running the executions below this prefix died"))
                stop = True
                continue
            out = pickle.loads(bytes(buf))
            if isinstance(out, str):
                err = err or out
                stop = True
                continue
            st, rest = out
            total.merge(st)
            pending.extend(rest)
            if any(v["key"] not in known for v in st.viol):
                stop = True
        if time.time() > deadline and not stop:
            stop = True
            complete = False
        if stop:
            pending = []
    if err and not total.viol:
        raise EngineError(err)
    return total, complete


def confirm(harness, v):
    """Replay a violation from a fresh process, twice (once if it is that it does not finish).  Returns the messages"""
    msgs = []
    hang = v["msg"].startswith("execution did not finish")
    for _ in range(1 if hang else 2):
        r = run_isolated(harness.body, v["choices"], None, harness.timeout if hang else max(300, harness.timeout))
        msgs.append(r["err"])
    return msgs


class Check:
    """One property: a list of harnesses per tier, an evidence file, a verdict"""

    def __init__(self, pid, level="model_checking", assumptions=(), rule=""):
        self.pid = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.rule = rule
        self.makers = []

    def harness(self, tiers=("quick", "thorough"), **kw):
        def deco(maker):
            self.makers.append((maker, tiers, kw))
            return maker
        return deco

    def build(self, tier):
        hs = []
        for maker, tiers, kw in self.makers:
            if tier in tiers:
                k = dict(kw)
                if callable(k.get("bound")):
                    k["bound"] = k["bound"](tier)
                hs.append(Harness(maker, tier, **k))
        return hs


def load_known(pid):
    """Keys of the recorded (unrepaired) findings of a property"""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<key> <what fails>
                parts = line.split(None, 3)
                if parts[1] == "property=" + pid:
                    known[parts[2][4:]] = parts[3]
    return known


def run_check(check, tier, seed, budget):
    t0 = time.time()
    known = load_known(check.pid)
    total = dict(executions=0, states=0, transitions=0, checks=0, outcomes=0)
    parts = []
    samples = []
    exhaustive = True
    found = None
    seen_known = {}
    hs = check.build(tier)
    for i, h in enumerate(hs):
        left = budget - (time.time() - t0)
        deadline = time.time() + max(5.0, left - 2.0 * (len(hs) - 1 - i))
        t1 = time.time()
        h.prepare()
        st, complete = explore(h, deadline, known=tuple(known))
        exhaustive = exhaustive and complete
        total["executions"] += st.executions
        total["states"] += st.states
        total["transitions"] += st.transitions
        total["checks"] += st.checks
        total["outcomes"] += len(st.outs)
        parts.append(dict(harness=h.name, what=h.rule, executions=st.executions, states=st.states,
                          transitions=st.transitions, comparisons_with_model=st.checks,
                          distinct_outcomes=len(st.outs), max_choices=st.maxdepth,
                          deviation_bound=h.bound, complete=complete,
                          isolated_process_per_execution=h.isolate,
                          wall_s=round(time.time() - t1, 2)))
        for s in st.samples[:2]:
            samples.append(dict(harness=h.name, **s))
        for v in st.viol:
            if v["key"] in known:
                seen_known[v["key"]] = v
        new = [v for v in st.viol if v["key"] not in known]
        if new:
            new.sort(key=lambda v: (sum(1 for c in v["choices"] if c), len(v["choices"]), v["choices"]))
            found = (h, new[0])
            break
    nviol = 1 if found else 0
    ev = dict(property=check.pid, tier=tier, seed=seed, level=check.level,
              coverage=dict(states=total["states"], transitions=total["transitions"],
                            traces_validated_against_impl=total["executions"],
                            distinct_outcomes=total["outcomes"],
                            comparisons_with_model=total["checks"],
                            rule=check.rule + " States are the nodes of the explored choice tree, transitions its edges; "
                            "every complete path is executed on the real code and compared with the reference model; "
                            "distinct_outcomes counts different observed outcomes.",
                            samples=samples[:8], exhaustive=bool(exhaustive and not found),
                            harnesses=parts),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for k, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (check.pid, known[k]))
    for p in parts:
        print("%s %s: executions=%d states=%d transitions=%d comparisons=%d outcomes=%d %s %.1fs"
              % (check.pid, p["harness"], p["executions"], p["states"], p["transitions"],
                 p["comparisons_with_model"], p["distinct_outcomes"],
                 "complete" if p["complete"] else "STOPPED AT TIME LIMIT", p["wall_s"]))
    if found:
        h, v = found
        msgs = confirm(h, v)
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (check.pid, h.name, hashlib.md5(
            json.dumps(v["choices"]).encode()).hexdigest()[:8]))
        with open(path, "w") as fp:
            json.dump(dict(property=check.pid, harness=h.name, tier=tier, choices=v["choices"],
                           labels=v["labels"], values=v["values"], message=v["msg"], trace=v["notes"],
                           reproduced_in_fresh_process=[m is not None for m in msgs],
                           replay_command="cd %s && ./check --replay %s" % (VERIF, path)), fp, indent=1)
        print("harness %s, choices:" % h.name)
        for i, ((lab, n), c) in enumerate(zip(v["labels"], v["choices"])):
            print("   %s = %s (%d of %d)" % (lab, v["values"][i] if i < len(v["values"]) else "?", c, n))
        for m in v["notes"][-30:]:
            print("   " + m)
        print("message: " + v["msg"])
        print("reproduced in a fresh process: %s" % [m is not None for m in msgs])
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    print("%s held on everything explored (%s, %.1f s)" % (check.pid, tier, time.time() - t0))
    return 0


def replay(check, path):
    d = json.load(open(path))
    for h in check.build(d["tier"]):
        if h.name == d["harness"]:
            h.prepare()
            r = run_isolated(h.body, d["choices"], None, max(300, h.timeout))
            for n in r["notes"]:
                print("  " + n)
            if r["err"]:
                print(r["err"])
                print("VIOLATION property=%s replay=%s" % (check.pid, path))
                return 1
            print("not reproduced: the property held on this execution")
            return 0
    sys.exit("no such harness")
