"""The simulator: one process, real code, one seeded scheduler.

Tasks are real threads of which exactly one runs at any moment; the others are
parked on a private semaphore.  A running task can lose the processor at every
*point*: a LINE (or INSTRUCTION) event of monitored code (all of
/repo/tonnikala and every compiled template), an acquisition or release of a
lock, a file operation, a clock reading, a sleep.  At every point the scheduler
- and nothing else - decides who runs next.  All decisions are drawn from one
``random.Random`` or, in a replay, read from the recorded list.

Nothing in this module reads a real clock, and logging draws nothing from the
generator.
"""
import _thread
import hashlib
import os
import random
import sys

real_allocate_lock = _thread.allocate_lock
get_ident = _thread.get_ident

ACTIVE = None           # the running Sim, or None
CURRENT = None          # the Sim of this process (its clock counts, running or not)
WALL_EPOCH = 1_700_000_000.0


class SimAbort(BaseException):
    pass


class Violation(Exception):
    """Raised by oracles.  ``cls`` is the class kept through minimisation."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


def draw_interrupt(rng, e, n, p=0.4):
    """When an asynchronous exception arrives (see Sim.interrupt)."""
    return int(10 ** rng.uniform(0, e)) if rng.random() >= p else -rng.randint(1, n)


class Task(object):
    def __init__(self, sim, tid, name, fn):
        self.sim = sim
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = real_allocate_lock()
        self.sem.acquire()
        self.count = 0          # points passed so far
        self.blocks = 0         # forced hand-overs so far
        self.state = "ready"    # ready | sleeping | blocked | done
        self.wake = None
        self.waiting_on = None
        self.ident = None
        self.nopreempt = 0
        self.inject = None      # (earliest count, exception factory)
        self.inject_new = None  # (number of functions, exception factory, those entered)
        self.error = None
        self.prio = 0


class Sim(object):
    """One simulated run."""

    def __init__(self, seed, sched=None, on_finish=None):
        self.seed = seed
        self.rng = random.Random("sched:%s" % (seed,))
        sched = dict(sched or {})
        self.sched = sched
        self.policy = sched.get("policy", "rand")
        self.p = sched.get("p", 0.02)
        self.fine = bool(sched.get("fine"))
        self.budget = sched.get("budget", 2_000_000)
        self.stall_p = sched.get("stall_p", 0.0)
        self.stall_max = sched.get("stall_max", 0.4)
        self.replay = sched.get("switches")
        if self.replay is not None:
            self.replay = {k: v for k, v in self.replay}
        self.tasks = []
        self.cur = None
        self.cur_ident = None
        self.now = 1000.0
        self.wall_offset = 0.0
        self.steps = 0
        self.switches = []
        self.inter = hashlib.blake2b(digest_size=8)
        self.trace = hashlib.blake2b(digest_size=16)
        self.nswitch = 0
        self.faults = {}
        self.probes = {}
        self.events = []
        self.on_finish = on_finish
        self.on_interrupt = None
        self.main_sem = real_allocate_lock()
        self.main_sem.acquire()
        self.gap = None
        self.change_points = set(sched.get("change_points", ()))
        self.clock_reads = 0
        self.running = False
        global CURRENT
        CURRENT = self

    # -- bookkeeping ------------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def log(self, *ev):
        self.trace.update(repr(ev).encode("utf-8", "backslashreplace"))
        if len(self.events) < 4000:
            self.events.append(
                (round(self.now, 6), self.cur.name if self.cur else "-") + ev
            )

    def seq(self):
        """A global event sequence number (never ties)."""
        self.steps += 1
        return self.steps

    # -- tasks ------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        t.prio = self.rng.random()
        self.tasks.append(t)
        return t

    def _thread_main(self, task):
        task.sem.acquire()
        task.ident = get_ident()
        self.cur_ident = task.ident
        try:
            task.fn()
        except Violation as e:
            self.finish(e)
        except BaseException as e:
            import traceback

            self.finish(
                HarnessError(
                    "task %s: %s"
                    % (task.name, "".join(traceback.format_exception(e))[-3000:])
                )
            )
        task.state = "done"
        self.log("done")
        nxt = self._pick_forced("e")
        if nxt is None:
            self.running = False
            self.cur = None
            self.cur_ident = None
            self.main_sem.release()
        else:
            self._handover(nxt)

    def run(self):
        """Run every spawned task to completion under the scheduler."""
        global ACTIVE
        if not self.tasks:
            return
        ACTIVE = self
        self.running = True
        for t in self.tasks:
            _thread.start_new_thread(self._thread_main, (t,))
        self._new_gap()
        first = self._pick_forced("s")
        self._handover(first)
        self.main_sem.acquire()
        ACTIVE = None
        self.tasks = []

    def finish(self, violation):
        self.on_finish(violation)   # does not return (the run's process ends)

    # -- scheduling -------------------------------------------------------
    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _new_gap(self):
        if self.policy == "rand" and self.p > 0:
            r = self.rng.random()
            import math

            self.gap = 1 + int(math.log(1.0 - r) / math.log(1.0 - min(self.p, 0.999)))
        else:
            self.gap = None

    def _elapse(self):
        """Simulated time passing at a hand-over."""
        r = self.rng.random()
        if self.stall_p and r < self.stall_p:
            self.fault("stall")
            return self.rng.random() * self.stall_max
        return r * 0.0005

    def _wake_sleepers(self):
        for t in self.tasks:
            if t.wake is not None and t.wake <= self.now and t.state != "done":
                t.state = "ready"
                t.wake = None

    def _pick_forced(self, why):
        """The current task cannot go on: choose another one (None: all done)."""
        c = self.cur
        key = "%s:%s%d" % ("-" if c is None else c.tid, why, 0 if c is None else c.blocks)
        if c is not None:
            c.blocks += 1
        self._wake_sleepers()
        ready = self._runnable()
        if not ready:
            sleepers = [t for t in self.tasks if t.wake is not None and t.state != "done"]
            if sleepers:
                t = min(sleepers, key=lambda t: (t.wake, t.tid))
                self.now = max(self.now, t.wake)
                self._wake_sleepers()
                ready = self._runnable()
            elif any(t.state == "blocked" for t in self.tasks):
                self.finish(
                    Violation(
                        "deadlock",
                        "every live task waits for a lock: %s"
                        % ", ".join(
                            t.name for t in self.tasks if t.state == "blocked"
                        ),
                    )
                )
            else:
                return None
        if self.replay is not None:
            v = self.replay.get(key)
            if v is not None and any(t.tid == v[0] for t in ready):
                self.now += v[1]
                nxt = self.tasks[v[0]]
            else:
                nxt = ready[0]
        else:
            if self.policy == "fixed":
                return ready[0]
            if self.policy == "pct":
                nxt = max(ready, key=lambda t: t.prio)
            else:
                nxt = ready[self.rng.randrange(len(ready))]
            dt = self._elapse()
            self.now += dt
            self.switches.append((key, (nxt.tid, dt)))
        return nxt

    def _handover(self, nxt):
        self.cur = nxt
        self.cur_ident = nxt.ident
        self.nswitch += 1
        nxt.sem.release()

    def _switch_to(self, nxt):
        me = self.cur
        self._handover(nxt)
        me.sem.acquire()
        self.cur_ident = me.ident

    def interrupt(self, n, factory):
        """Deliver an asynchronous exception to the running task: after ``n``
        points, or on entering the ``-n``-th function that it has not entered
        before (rarely used code is hit as often as that in loops)."""
        me = self.cur
        if n >= 0:
            me.inject = (me.count + n, factory)
        else:
            me.inject_new = (-n, factory, set())
            if self.on_interrupt:
                self.on_interrupt(True)

    def no_interrupt(self):
        me = self.cur
        me.inject = me.inject_new = None
        if self.on_interrupt:
            self.on_interrupt(False)

    def enter(self, code):
        """A function is entered."""
        me = self.cur
        inj = me.inject_new
        if inj is not None and not me.nopreempt and code not in inj[2]:
            inj[2].add(code)
            if len(inj[2]) >= inj[0]:
                me.inject_new = None
                self.fault("async_exception")
                raise inj[1]()
        self.point("S")

    def point(self, what=None):
        """A place where the running task may lose the processor."""
        me = self.cur
        if me is None or me.ident != get_ident():
            return
        if what is not None:
            self.trace.update(what.encode())
        self.steps += 1
        if self.steps > self.budget:
            self.finish(Violation("no-progress", "step budget %d exhausted" % self.budget))
        me.count += 1
        inj = me.inject
        # an asynchronous exception strikes where CPython delivers them: on
        # entering a function, in a call that blocks or in foreign code, and
        # not between any two lines
        if inj is not None and what is not None and me.count >= inj[0] and not me.nopreempt:
            me.inject = None
            self.fault("async_exception")
            raise inj[1]()
        if me.nopreempt:
            return
        if self.replay is not None:
            v = self.replay.get("%d:%d" % (me.tid, me.count))
            if v is None:
                return
            nxt_tid, dt = v
            if nxt_tid >= len(self.tasks):
                return
            nxt = self.tasks[nxt_tid]
            self.now += dt
            self._wake_sleepers()
            if nxt.state != "ready" or nxt is me:
                return
        else:
            if self.policy == "rand":
                if self.gap is None:
                    return
                self.gap -= 1
                if self.gap > 0:
                    return
                self._new_gap()
                self._wake_sleepers()
                others = [t for t in self.tasks if t.state == "ready" and t is not me]
                if not others:
                    return
                nxt = others[self.rng.randrange(len(others))]
            elif self.policy == "pct":
                if self.steps not in self.change_points:
                    return
                me.prio = -self.steps
                self._wake_sleepers()
                nxt = max(self._runnable(), key=lambda t: t.prio)
                if nxt is me:
                    return
            else:
                return
            dt = self._elapse()
            self.now += dt
            self.switches.append(("%d:%d" % (me.tid, me.count), (nxt.tid, dt)))
        f = sys._getframe(1)
        # where (in monitored code) the switch happened: for the distinct
        # interleavings measure
        for _ in range(4):
            fn = f.f_code.co_filename
            if "/tksim/" not in fn:
                break
            if f.f_back is None:
                break
            f = f.f_back
        self.inter.update(
            b"%d>%d@%s:%d;"
            % (me.tid, nxt.tid, os.path.basename(f.f_code.co_filename).encode(), f.f_lineno or 0)
        )
        self.trace.update(b"|%d:%d>%d" % (me.tid, me.count, nxt.tid))
        self._switch_to(nxt)

    def _block(self, why):
        """Hand over; the current task's state was set by the caller."""
        me = self.cur
        self.trace.update(b"b%d" % me.tid)
        nxt = self._pick_forced(why)
        if nxt is me:
            return
        self._switch_to(nxt)

    def switch(self, tid):
        """Hand over to a task of the plan's choice, if it can run."""
        if not self.in_task() or tid >= len(self.tasks):
            return
        nxt = self.tasks[tid]
        if nxt.state != "ready" or nxt is self.cur:
            return
        self.inter.update(b"%d>%d@%d;" % (self.cur.tid, tid, self.cur.count))
        self.trace.update(b"|%d>%d" % (self.cur.tid, tid))
        self._switch_to(nxt)

    def in_task(self):
        return self.cur is not None and self.cur.ident == get_ident()

    def sleep(self, dt):
        if not self.in_task():
            self.now += max(0.0, dt)
            return
        me = self.cur
        me.wake = self.now + max(0.0, dt)
        me.state = "sleeping"
        self._block("w")

    # -- clocks -----------------------------------------------------------
    def wall(self):
        return WALL_EPOCH + self.now + self.wall_offset


class NoPreempt(object):
    def __enter__(self):
        s = ACTIVE
        self.t = s.cur if s is not None and s.in_task() else None
        if self.t:
            self.t.nopreempt += 1

    def __exit__(self, *a):
        if self.t:
            self.t.nopreempt -= 1


# ---------------------------------------------------------------------------
# locks


class SimLock(object):
    """Stands in for threading.Lock; cooperative while a simulation runs."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._depth = 0
        self._waiters = []

    def _me(self):
        s = ACTIVE
        if s is not None and s.in_task():
            return s, s.cur
        return None, get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if s is not None:
            s.point("L")
        if self._owner is not None and not (self._reentrant and self._owner is me
                                            or self._reentrant and self._owner == me):
            if not blocking:
                return False
            if s is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise HarnessError("lock held outside of the simulation")
            deadline = None
            if timeout is not None and timeout >= 0:
                deadline = s.now + timeout
            while self._owner is not None:
                me.state = "blocked"
                me.wake = deadline
                self._waiters.append(me)
                s.probe("lock_contention")
                s._block("l")
                if me in self._waiters:
                    self._waiters.remove(me)
                if self._owner is not None and deadline is not None and s.now >= deadline:
                    return False
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        s, me = self._me()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._depth -= 1
        if self._depth == 0 or not self._reentrant:
            self._depth = 0
            self._owner = None
            for t in self._waiters:
                if t.state == "blocked":
                    t.state = "ready"
                    t.wake = None
            del self._waiters[:]
        if s is not None:
            s.point("U")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition / Event
    def _is_owned(self):
        return self._owner is not None and self._owner == self._me()[1]

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return "<SimLock %s>" % ("locked" if self._owner is not None else "unlocked")


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        d, o = self._depth, self._owner
        self._depth = 1
        self.release()
        return d, o

    def _acquire_restore(self, st):
        self.acquire()
        self._depth, self._owner = st


def make_lock():
    return SimLock()


def make_rlock(*a, **k):
    return SimRLock()
