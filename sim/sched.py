"""Seeded scheduler for several threads of the tool in one process.

The threads are real, but exactly one runs at a time: at every executed line of
the tool (outside module level) and at every I/O operation the running thread
asks the scheduler who continues.  The choice is the schedule: a pure function
of the scenario (policy + seed), recorded as (step, thread) switches.
"""

import _thread
import dis
import random
import sys
import threading
import zlib

from . import proc
from .proc import Tracer, BudgetExceeded, WallTimeout
from .world import SimCrash, HarnessError

_RealThread = threading.Thread
_RealLock = threading.Lock
_RealRLock = threading.RLock
_RealEvent = threading.Event


def code_key(code):
    return code.co_filename[len(proc.TREE):], code.co_name


class Functions(object):
    """Collects the functions of the tool that a run enters."""

    STORES = ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR",
              "DELETE_ATTR")

    def __init__(self):
        self.codes = {}

    def call(self, frame, event, arg):
        code = frame.f_code
        if code.co_name != "<module>" and \
                code.co_filename.startswith(proc.TREE):
            self.codes.setdefault(code_key(code), code)

    def weights(self):
        """Functions that store into objects are more interesting."""
        return {k: 3 if any(op.opname in self.STORES
                            for op in dis.get_instructions(c)) else 1
                for k, c in self.codes.items()}


def meeting_points(functions, seed):
    """Up to three functions that at least two of the runs enter, and how often
    a thread waits there."""
    rng = random.Random("m%s" % seed)
    ws = [f.weights() for f in functions]
    pool = {}
    for k in sorted(set(k for w in ws for k in w)):
        if sum(1 for w in ws if k in w) > 1:
            pool[k] = max(w.get(k, 0) for w in ws)
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        if not pool:
            break
        k = rng.choices(sorted(pool), [pool[q] for q in sorted(pool)])[0]
        del pool[k]
        out.append((k, rng.choice([1, 2, 8])))
    return out


class Deadlock(Exception):
    pass


class Scheduler(object):

    current = None

    def __init__(self, world, policy, bodies, targets=None):
        self.world = world
        self.policy = dict(policy)
        self.rng = random.Random("s%s" % policy.get("seed", 0))
        self.bodies = bodies
        self.n = len(bodies)
        self.sems = [Baton() for _ in bodies]
        self.done = [False] * self.n
        self.blocked = [False] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        with real_locks():
            self.all_done = _RealEvent()
        self.step = 0
        self.cur = None
        self.switches = []
        self.forced = None
        if "switches" in policy:
            self.forced = {int(s): int(t) for s, t in policy["switches"]}
        self.prio = list(range(self.n))
        self.rng.shuffle(self.prio)
        self.change = set()
        if policy.get("kind") == "pct":
            self.change = set(self.rng.randrange(1, policy.get("length", 5000))
                              for _ in range(policy.get("depth", 3)))
        self.dead = False
        # "meet": threads wait for each other in the functions they have in
        # common, and then alternate quickly
        self.where = [None] * self.n
        self.drawn = targets is None
        self.targets = {k: [n] * self.n for k, n in targets or ()}
        self.parked = {}
        self.burst = 0

    def entered(self, frame):
        me, key = self.cur, code_key(frame.f_code)
        if key == self.where[me]:
            return
        self.where[me] = key
        if self.drawn and key not in self.targets:
            h = zlib.crc32(repr((key, self.policy.get("seed"))).encode())
            self.targets[key] = [0 if h % self.policy.get("one_in", 3) else
                                 1 + h // 64 % 4] * self.n
        left = self.targets.get(key)
        if not left or not left[me]:
            return
        left[me] -= 1
        others = [i for i, k in self.parked.items() if k == key]
        if others:
            for i in others:
                del self.parked[i]
            self.burst = self.policy.get("burst", 40)
        else:
            self.parked[me] = key

    # called by the running thread
    def yield_point(self, blocked=False):
        me = self.cur
        self.step += 1
        if self.step > self.policy.get("max_steps", 3000000):
            raise BudgetExceeded("schedule of %d steps" % self.step)
        nxt = self.choose(me, blocked)
        if nxt is None or nxt == me:
            if blocked:
                raise Deadlock()
            return
        self.switch(me, nxt)

    def choose(self, me, blocked):
        ready = [i for i in range(self.n) if not self.done[i] and
                 not (blocked and i == me)]
        if not ready:
            return None
        if len(ready) == 1:
            return ready[0]
        if self.forced is not None:
            t = self.forced.get(self.step)
            if t is not None and t in ready:
                return t
            return me if me in ready else ready[self.step % len(ready)]
        if blocked and me is not None and not self.done[me]:
            return self.rng.choice(ready)       # waits for a lock
        kind = self.policy.get("kind", "random")
        if kind == "meet":
            free = [i for i in ready if i not in self.parked]
            if not free:
                i = self.rng.choice(ready)
                del self.parked[i]
                return i
            if self.burst:
                self.burst -= 1
                return self.rng.choice(free)
            return me if me in free else self.rng.choice(free)
        if kind == "pct":
            if self.step in self.change and me is not None:
                low = min(self.prio) - 1
                self.prio[me] = low
            return max(ready, key=lambda i: self.prio[i])
        if kind == "rr":
            q = self.policy.get("quantum", 7)
            if self.step % q and me in ready:
                return me
            k = ready.index(me) if me in ready else -1
            return ready[(k + 1) % len(ready)]
        p = self.policy.get("p", 0.1)
        if me in ready and self.rng.random() >= p:
            return me
        return self.rng.choice(ready)

    def switch(self, me, nxt):
        self.switches.append((self.step, nxt))
        self.cur = nxt
        self.sems[nxt].release()
        if me is not None:
            self.sems[me].acquire()
            if self.dead:
                raise SimCrash()

    def _body(self, i):
        self.sems[i].acquire()
        if self.dead:
            self._finish(i)
            return
        tracer = Tracer(world=self.world, hook=self._hook)
        try:
            sys.settrace(tracer.call)
            try:
                self.results[i] = self.bodies[i]()
            finally:
                sys.settrace(None)
        except SimCrash:
            self.errors[i] = ("SimCrash", "")
            self.dead = True
        except HarnessError:
            raise
        except BaseException as e:
            self.errors[i] = (type(e).__name__, str(e)[:300])
            e.__traceback__ = None
        self._finish(i)

    def _hook(self, frame):
        # not while a module is being imported: the interpreter holds locks
        f = frame
        while f is not None:
            if f.f_code.co_name == "<module>":
                return
            f = f.f_back
        if self.policy.get("kind") == "meet":
            self.entered(frame)
        self.yield_point()

    def _finish(self, i):
        self.done[i] = True
        if self.dead:
            rest = [j for j in range(self.n) if not self.done[j]]
            if rest:
                self.cur = rest[0]
                self.sems[rest[0]].release()
                return
        nxt = self.choose(i, True)
        if nxt is None:
            self.all_done.set()
        else:
            self.switches.append((self.step, nxt))
            self.cur = nxt
            self.sems[nxt].release()

    def run(self):
        with real_locks():
            threads = [_RealThread(target=self._body, args=(i,), daemon=True)
                       for i in range(self.n)]
            for t in threads:
                t.start()
        Scheduler.current = self
        self.world.on_op = lambda kind, name: self._op_hook()
        try:
            first = self.choose(None, False)
            self.cur = first
            self.switches.append((0, first))
            self.sems[first].release()
            seen = -1
            while not self.all_done.wait(20):
                if seen == self.step:
                    raise HarnessError("schedule makes no progress")
                seen = self.step
            for t in threads:
                t.join(10)
        finally:
            self.world.on_op = None
            Scheduler.current = None
        return self.results, self.errors

    def _op_hook(self):
        # I/O inside the tool is also a scheduling point, unless the I/O
        # happens under a lock of the standard library (log handlers)
        f = sys._getframe(2)
        while f is not None:
            name = f.f_code.co_filename
            if "logging" in name or "importlib" in name or \
                    f.f_code.co_name == "<module>":
                return
            f = f.f_back
        if not self.dead:
            self.yield_point()


class Baton(object):
    """Held until somebody hands it over; below everything the tool can see."""

    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()

    def acquire(self):
        self.lock.acquire()

    def release(self):
        self.lock.release()


class real_locks(object):

    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = _RealLock, _RealRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old


class sim_locks(object):
    """While active, new threading locks are SimLocks: the tool is imported
    under it, so that locks of its modules are under the scheduler, too."""

    def __enter__(self):
        self.real = threading.Lock, threading.RLock
        threading.Lock = lambda: SimLock(False)
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.real


class SimLock(object):
    """A lock that hands the baton on instead of blocking the process."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (
                self.reentrant and self.owner == me):
            if not blocking:
                return False
            if Scheduler.current is None:
                raise Deadlock("a lock that is never released")
            Scheduler.current.yield_point(blocked=True)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.depth == 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()
