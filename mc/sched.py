"""A cooperative scheduler for the threads of the code under test, and an explorer of its schedules.

install() replaces the thread, lock and queue primitives of the standard library before the code under test is imported.
Inside Run.execute() exactly one thread runs at a time; at every operation on such a primitive, and at every point()
announced by the harness, the scheduler decides who continues. explore() enumerates the decisions by depth-first search."""
import _thread, collections, queue, sys, threading, time
from mc.core import HarnessError

_real_start = _thread.start_new_thread
_real_lock = _thread.allocate_lock
_real_ident = _thread.get_ident
RUN = None          # the run in progress


class Deadlock(BaseException):
    pass


class Aborted(BaseException):
    pass


class _T:
    __slots__ = ("id", "gate", "pred", "done", "timed", "ident", "what")

    def __init__(self, i):
        self.id, self.gate, self.pred, self.done, self.timed, self.ident, self.what = i, _real_lock(), None, False, False, None, ""
        self.gate.acquire()


class Run:
    """One execution under control."""

    def __init__(self, prefix, limit=20000, interrupt_at=None):
        self.prefix, self.limit = prefix, limit
        self.interrupt_at = interrupt_at      # raise KeyboardInterrupt at this point of the main thread
        self.main_points = 0
        self.threads = []
        self.trace = []       # (number of enabled threads, choice, running thread still enabled)
        self.aborting = self.after = False
        self.steps = 0
        self.deadlock = None
        self.crashed = []
        self.cur = None

    # -- executed by whoever runs
    def me(self):
        i = _real_ident()
        for t in self.threads:
            if t.ident == i and not t.done:
                return t
        return None

    def enabled(self, t):
        return not t.done and (t.pred is None or t.pred())

    def pick(self):
        """The next thread to run, or None."""
        cur = self.cur
        en = []
        still = False
        if cur is not None and self.enabled(cur):
            en.append(cur)
            still = True
        en += [t for t in self.threads if t is not cur and self.enabled(t)]
        if not en:
            # time passes only when nobody can do anything else
            en = [t for t in self.threads if not t.done and t.timed]
            if not en:
                return None
        if len(en) == 1:
            return en[0]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(en):
            raise HarnessError("the schedule does not fit this execution (choice %d of %d)" % (c, len(en)))
        self.trace.append((len(en), c, still))
        return en[c]

    def switch(self, me):
        self.steps += 1
        if self.steps > self.limit:
            self.abort("no end after %d steps: %s" % (self.limit, self.state()))
        nxt = self.pick()
        if nxt is None:
            self.abort("deadlock: %s" % self.state())
        elif nxt is not me:
            self.cur = nxt
            nxt.gate.release()
            if not me.done:
                me.gate.acquire()
                self.check_abort(me)

    def state(self):
        return ", ".join("thread %d %s" % (t.id, "ended" if t.done else t.what or "running") for t in self.threads)

    def check_abort(self, me):
        if self.aborting:
            raise (Deadlock if me.id == 0 else Aborted)(self.deadlock or "aborted")

    def abort(self, why):
        if self.deadlock is None:
            self.deadlock = why
        self.aborting = True
        me = self.me()
        main = self.threads[0]
        self.cur = main
        if me is main:
            raise Deadlock(why)
        if not main.done:
            main.gate.release()
        if not me.done:
            raise Aborted(why)

    def point(self, what="", pred=None, timed=False):
        """A scheduling point; returns True if pred holds (False: timed out)."""
        me = self.me()
        if me is None:
            return True
        self.check_abort(me)
        if me.id == 0 and not self.after:
            self.main_points += 1
            if self.interrupt_at is not None and self.main_points == self.interrupt_at:
                raise KeyboardInterrupt("injected")
        me.pred, me.what, me.timed = pred, what, timed
        try:
            self.switch(me)
        finally:
            me.pred, me.timed = None, False
        return pred is None or pred()

    def spawn(self, fn, args, kwargs):
        t = _T(len(self.threads))
        self.threads.append(t)

        def body():
            t.ident = _real_ident()
            t.gate.acquire()
            try:
                if not self.aborting:
                    fn(*args, **(kwargs or {}))
            except (Aborted, SystemExit):
                pass
            except BaseException as e:
                self.crashed.append("%s: %s" % (type(e).__name__, e))
            t.done = True
            t.what = "ended"
            if not self.aborting:
                try:
                    self.switch_end(t)
                except BaseException as e:
                    self.crashed.append("scheduler: %s" % e)
        _real_start(body, ())
        self.point("started thread %d" % t.id)
        return t

    def switch_end(self, t):
        nxt = self.pick()
        if nxt is None:
            if any(not x.done for x in self.threads):
                self.deadlock = "deadlock: %s" % self.state()
                self.aborting = True
                self.cur = self.threads[0]
                self.threads[0].gate.release()
            return
        self.cur = nxt
        nxt.gate.release()

    def execute(self, fn):
        """Runs fn as thread 0; returns (result, exception). Remaining threads are then run to their end."""
        global RUN
        main = _T(0)
        main.ident = _real_ident()
        self.threads.append(main)
        self.cur = main
        RUN = self
        res = exc = None
        self.left = []
        try:
            try:
                res = fn()
            except Deadlock as e:
                self.deadlock = str(e)
            except BaseException as e:
                exc = e
                if isinstance(e, HarnessError):
                    raise
                if type(e).__name__ == "CaseTimeout":
                    raise
            self.after = True
            if self.deadlock is None:
                # let the others finish
                self.interrupt_at = None
                main.what = "returned"
                self.left = [t.id for t in self.threads if not t.done]
                try:
                    if self.left:
                        self.point("returned", lambda: all(t.done for t in self.threads[1:]))
                except Deadlock as e:
                    self.deadlock = "after copying has returned: %s" % e
        finally:
            # get rid of every thread
            self.aborting = True
            for t in self.threads[1:]:
                if not t.done:
                    try:
                        t.gate.release()
                    except RuntimeError:
                        pass
            end = time.monotonic() + 5
            while any(not t.done for t in self.threads[1:]) and time.monotonic() < end:
                time.sleep(0.0002)
            RUN = None
        return res, exc


def point(what="", pred=None, timed=False):
    if RUN is not None:
        return RUN.point(what, pred, timed)
    return pred is None or pred()


class CoopLock:
    """Replaces _thread.lock."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            point("try lock")
            if self._held:
                return False
        elif not point("lock", lambda: not self._held, timeout is not None and timeout >= 0):
            if RUN is None:
                raise HarnessError("a controlled lock blocks outside of a controlled run")
            return False
        self._held = True
        return True

    __enter__ = acquire
    acquire_lock = acquire

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        if RUN is not None and not RUN.aborting:
            point("unlock")

    release_lock = release

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._held

    locked_lock = locked

    def _at_fork_reinit(self):
        self._held = False


class CoopQueue:
    """Replaces queue.Queue and friends: every operation is atomic."""

    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = collections.deque()
        self.unfinished_tasks = 0

    def _full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block=True, timeout=None):
        if not point("put", (lambda: not self._full()) if block else None, timeout is not None) or self._full():
            raise queue.Full
        self.queue.append(item)
        self.unfinished_tasks += 1

    def put_nowait(self, item):
        self.put(item, False)

    def _take(self):
        return self.queue.popleft()

    def get(self, block=True, timeout=None):
        if not point("get", (lambda: len(self.queue) > 0) if block else None, timeout is not None) or not self.queue:
            raise queue.Empty
        return self._take()

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return not self.queue

    def full(self):
        return self._full()

    def task_done(self):
        if self.unfinished_tasks <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished_tasks -= 1

    def join(self):
        point("queue join", lambda: self.unfinished_tasks == 0)


class CoopLifo(CoopQueue):
    def _take(self):
        return self.queue.pop()


class CoopSimple(CoopQueue):
    def __init__(self):
        CoopQueue.__init__(self, 0)


def start_new_thread(fn, args=(), kwargs=None):
    if RUN is None:
        return _real_start(fn, args, kwargs or {})
    return RUN.spawn(fn, args, kwargs).id + 1000


_RealThread = threading.Thread


class CoopThread(_RealThread):
    _coop = None

    def start(self):
        if RUN is None:
            return _RealThread.start(self)
        if self._coop:
            raise RuntimeError("threads can only be started once")
        self._started.set()
        self._coop = RUN.spawn(self._go, (), None)

    def _go(self):
        try:
            self.run()
        finally:
            self._is_stopped = True

    def join(self, timeout=None):
        if not self._coop:
            return _RealThread.join(self, timeout)
        point("join", lambda: self._coop.done, timeout is not None)

    def is_alive(self):
        if not self._coop:
            return _RealThread.is_alive(self)
        point("is_alive")
        return not self._coop.done


def _sleep(sec, real=time.sleep):
    if RUN is not None and RUN.me() is not None:
        point("sleep", lambda: False, True)
    else:
        real(sec)


def install():
    """Before the code under test is imported."""
    if any(m.startswith("bmaptools.") and m != "bmaptools.BmapHelpers" for m in sys.modules):
        raise HarnessError("bmaptools is imported already")
    _thread.start_new_thread = start_new_thread
    _thread.start_new = start_new_thread
    queue.Queue, queue.LifoQueue, queue.SimpleQueue = CoopQueue, CoopLifo, CoopSimple
    threading.Thread = CoopThread
    threading.Lock = CoopLock
    threading.RLock = threading._PyRLock
    threading._allocate_lock = CoopLock
    _thread.allocate_lock = CoopLock
    time.sleep = _sleep


def explore(run, bound, limit=None, first=()):
    """run(prefix) -> trace. Starts from the choices in `first`. Executes every schedule with at most `bound` preemptions (None: all). Returns the number of
    schedules, and whether the limit was not hit."""
    stack, n = [tuple(first)], 0
    while stack:
        if limit and n >= limit:
            return n, False
        prefix = stack.pop()
        trace = run(prefix)
        n += 1
        cost = 0
        choices = [c for _, c, _ in trace]
        for i, (k, c, still) in enumerate(trace):
            if i >= len(prefix):
                if bound is None or cost + (1 if still else 0) <= bound:
                    for alt in range(1, k):
                        stack.append(tuple(choices[:i]) + (alt,))
            if still and c:
                cost += 1
    return n, True
