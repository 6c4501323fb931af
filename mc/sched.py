"""Cooperative scheduler: real threads of the code under test, one running at a time, the explorer choosing which.

Scheduling points are the lines (or bytecode instructions) of chosen functions, lock operations, and explicit point() calls.  At each,
the explorer picks the next thread; leaving a thread that could go on costs one preemption.  install() replaces threading's locks with
ones the scheduler understands and has to run before the code under test is imported."""
import _thread
import sys
import threading

from .engine import Violation

_real_lock = _thread.allocate_lock
_current = None           # the scheduler running, if any


class Stop(BaseException):
    """Unwinds the threads of an abandoned execution"""


class Lock:
    """threading.Lock that blocks through the scheduler"""
    reentrant = False

    def __init__(self):
        self._lock = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if s is None or me not in s.ids:
            ok = self._lock.acquire(blocking, timeout) if blocking else self._lock.acquire(False)
        else:
            s.point("lock")
            ok = self._lock.acquire(False)
            while not ok and blocking:
                s.block(self, finite=timeout is not None and timeout >= 0)
                ok = self._lock.acquire(False)
                if not ok and timeout is not None and timeout >= 0:
                    return False
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()
        s = _current
        if s is not None and _thread.get_ident() in s.ids:
            s.point("unlock")

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._lock = _real_lock()
        self._owner = None

    # for threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class RLock(Lock):
    reentrant = True


TOOL = 4


def _reached(code, where):
    s = _current
    if s is not None:
        s.point(code.co_name)


def instrument(code, watch):
    """Make the lines ("line") or bytecode instructions ("opcode") of a code object and of those inside it scheduling points, as
    watch(code) says"""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "scheduler")
        mon.register_callback(TOOL, mon.events.LINE, _reached)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _reached)
    how = watch(code)
    mon.set_local_events(TOOL, code, {None: 0, "line": mon.events.LINE, "opcode": mon.events.INSTRUCTION}[how])
    for c in code.co_consts:
        if isinstance(c, type(code)):
            instrument(c, watch)


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    _thread.allocate_lock = Lock


class Scheduler:
    """Run functions as threads under the explorer's control"""

    def __init__(self, ch, limit=6000):
        self.ch = ch
        self.limit = limit
        self.ids = {}
        self.sems = []
        self.state = []           # "ready", "done", or the Lock waited for
        self.finite = []
        self.errors = []
        self.running = None
        self.steps = 0
        self.dead = None
        self.over = _real_lock()

    # -- scheduling
    def enabled(self):
        out = []
        for i, s in enumerate(self.state):
            if s == "ready" or (isinstance(s, Lock) and (not s.locked() or self.finite[i])):
                out.append(i)
        return out

    def _switch(self, where, can_stay):
        me = self.running
        self.steps += 1
        if self.steps > self.limit:
            self.stop("threads do not come to an end (%d steps)" % self.limit)
            return
        en = self.enabled()
        if not en:
            if all(s == "done" for s in self.state):
                self.over.release()
            else:
                self.stop("deadlock: " + ", ".join("thread %d %s" % (i, "waits for a lock" if isinstance(s, Lock) else s)
                                                   for i, s in enumerate(self.state)))
            return
        if can_stay:
            order = [me] + [i for i in en if i != me]
            nxt = self.ch.pick("run", order, costs=[0] + [1] * (len(order) - 1)) if len(order) > 1 else me
        else:
            nxt = self.ch.pick("run next", en) if len(en) > 1 else en[0]
        if nxt == me:
            return
        if self.ch.fresh or len(self.ch.notes) < 60:
            self.ch.note("thread %s at %s -> thread %d" % (me, where, nxt))
        self.running = nxt
        self.sems[nxt].release()
        if me is not None and self.state[me] != "done":
            self.sems[me].acquire()
            if self.dead:
                raise Stop()

    def point(self, where="point"):
        i = self.ids.get(_thread.get_ident())
        if i is None or self.dead:
            if self.dead and i is not None:
                raise Stop()
            return
        try:
            self._switch(where, True)
        except Stop:
            raise
        except BaseException as e:                          # explorer errors
            self.crash(e)
            raise Stop()
        if self.dead:
            raise Stop()

    def block(self, lock, finite=False):
        i = self.ids[_thread.get_ident()]
        if self.dead:
            raise Stop()
        self.state[i] = lock
        self.finite[i] = finite
        try:
            self._switch("blocked", False)
        except Stop:
            raise
        except BaseException as e:
            self.crash(e)
            raise Stop()
        self.state[i] = "ready"
        if self.dead:
            raise Stop()

    def stop(self, why):
        self.crash(Violation(why))
        if self.running is not None:
            raise Stop()

    def crash(self, e):
        if self.dead is None:
            self.dead = e
            self.over.release()
            for s in self.sems:
                try:
                    s.release()
                except RuntimeError:
                    pass

    def _thread(self, i, fn):
        # the threading module notes a thread when it is first asked for it, taking locks
        threading.current_thread()
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        if self.dead:
            return
        try:
            fn()
        except Stop:
            return
        except BaseException as e:                          # noqa: BLE001
            self.errors.append((i, e))
        self.state[i] = "done"
        try:
            self._switch("end", False)
        except Stop:
            pass
        except BaseException as e:                          # noqa: BLE001
            self.crash(e)

    def run(self, fns):
        """Returns [(thread, exception)] of the threads that raised"""
        global _current
        self.over.acquire()
        for i in range(len(fns)):
            s = _real_lock()
            s.acquire()
            self.sems.append(s)
            self.state.append("ready")
            self.finite.append(False)
        _current = self
        for i, f in enumerate(fns):
            _thread.start_new_thread(self._thread, (i, f))
        while len(self.ids) < len(fns):
            pass
        try:
            self._switch("start", False)
            self.over.acquire()
        finally:
            _current = None
        if self.dead is not None:
            raise self.dead
        return self.errors
