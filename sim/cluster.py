"""Several processes of the tool at the same time on one machine.

Every process runs in a forked child with a World of its own on the same
scratch disk.  A child announces each operation before it happens and waits for
a grant, so exactly one runs at a time and the parent decides which: the
interleaving is a pure function of the policy and its seed, recorded as (step,
process) switches.  The clock is the machine's, handed from process to process
with the grant.
"""

import errno
import fcntl
import json
import os
import pickle
import random
import signal
import struct
import sys
import traceback

from . import world as W
from .world import HarnessError

NAMES = ("openw", "replace", "rename", "unlink", "remove", "mkdir", "rmdir",
         "link", "symlink", "flock")
_flock, _lockf = fcntl.flock, fcntl.lockf


def _send(fd, data):
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[W.REAL["oswrite"](fd, data):]


def _exactly(fd, n):
    out = b""
    while len(out) < n:
        data = W.REAL["osread"](fd, n - len(out))
        if not data:
            return None
        out += data
    return out


def _recv(fd):
    head = _exactly(fd, 4)
    return None if head is None else _exactly(fd, struct.unpack("<I", head)[0])


class _Child(object):

    def __init__(self, w, up, down):
        self.w, self.up, self.down = w, up, down
        self.last = 0

    def announce(self, kind, name):
        w = self.w
        if w.running:
            w.settle()
        _send(self.up, json.dumps([kind, name, w.now, w.pid]).encode())
        grant = _recv(self.down)
        if grant is None:
            os._exit(5)
        w.now, w.alive = json.loads(grant)
        w.seen()

    def lock(self, real, fd, cmd, args):
        if not cmd & (fcntl.LOCK_EX | fcntl.LOCK_SH) or cmd & fcntl.LOCK_NB:
            return real(fd, cmd, *args)
        self.announce("flock", None)
        while True:
            try:
                return real(fd, cmd | fcntl.LOCK_NB, *args)
            except OSError as e:
                if e.errno not in (errno.EAGAIN, errno.EACCES):
                    raise
            self.announce("sleep", None)


def _child(body, w, up, down):
    c = _Child(w, up, down)
    w.on_op = c.announce
    fcntl.flock = lambda fd, cmd: c.lock(_flock, fd, cmd, ())
    fcntl.lockf = lambda fd, cmd, *a: c.lock(_lockf, fd, cmd, a)
    try:
        c.announce("start", None)
        value = body(w)
        for out in value:
            out.value = None
        reply = dict(value=value, log=w.log, stats=w.stats,
                     secs=w.sim_seconds, now=w.now)
    except BaseException:
        reply = dict(failed=traceback.format_exc()[-2000:])
    _send(up, json.dumps(["end", None, w.now, w.pid]).encode())
    _send(up, pickle.dumps(reply))


class Overlap(object):

    def __init__(self, worlds, bodies, policy):
        self.worlds, self.bodies = worlds, bodies
        self.policy = dict(policy)
        self.rng = random.Random("o%s" % policy.get("seed", 0))
        self.n = len(bodies)
        self.step = 0
        self.switches = []
        self.trace = []
        self.stuck = False
        self.forced = None
        if "switches" in policy:
            self.forced = {int(s): int(t) for s, t in policy["switches"]}
        self.prio = list(range(self.n))
        self.rng.shuffle(self.prio)
        self.change = set(
            int(self.policy.get("length", 300) * self.rng.random())
            for _ in range(self.policy.get("depth", 3)))
        self.count = [0] * self.n
        self.asleep = set()
        self.parked = set()
        self.burst = 0
        self.want = [None] * self.n         # announced, not yet granted

    # ---- who is next

    def choose(self, cur):
        live = [i for i in range(self.n) if self.want[i] is not None]
        ready = [i for i in live if i not in self.asleep]
        if not ready:
            self.asleep.clear()
            self.parked.clear()
            ready = live
        if self.forced is not None:
            t = self.forced.get(self.step)
            if t in live:
                return t
            return cur if cur in ready else ready[0]
        kind = self.policy.get("kind", "random")
        if len(ready) == 1:
            return ready[0]
        if kind == "pause":
            # one stops at an operation until the others have ended
            held = [i for i in ready if self.count[i] ==
                    self.policy["at"][i % len(self.policy["at"])]]
            free = [i for i in ready if i not in held] or ready
            return cur if cur in free else self.rng.choice(free)
        if kind == "meet":
            # who is about to create, move or remove a name waits for another
            # one to do so, and then they go step by step
            if self.burst:
                self.burst -= 1
                return self.rng.choice(ready)
            free = [i for i in ready if i not in self.parked]
            if not free:
                self.parked.clear()
                self.burst = self.policy.get("burst", 12)
                return self.rng.choice(ready)
            return cur if cur in free else self.rng.choice(free)
        if kind == "pct":
            if self.step in self.change and cur is not None:
                self.prio[cur] = min(self.prio) - 1
            return max(ready, key=lambda i: self.prio[i])
        if kind == "rr":
            q = self.policy.get("quantum", 1)
            if self.step % q and cur in ready:
                return cur
            return min(ready, key=lambda i: (i <= (-1 if cur is None else cur), i))
        p = self.policy.get("p", .2)
        if cur in ready and self.rng.random() >= p:
            return cur
        return self.rng.choice(ready)

    # ---- the run

    def run(self):
        pids, up, down = [], [], []
        now = self.worlds[0].now
        results = [None] * self.n
        alive = [0] * self.n
        sys.stdout.flush()
        try:
            for i in range(self.n):
                r1, w1 = os.pipe()
                r2, w2 = os.pipe()
                self.worlds[i].pid = 1000 * (i + 1)
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        for fd in up + down + [r1, w2]:
                            os.close(fd)
                        _child(self.bodies[i], self.worlds[i], w1, r2)
                    finally:
                        os._exit(0)
                os.close(w1)
                os.close(r2)
                pids.append(pid)
                up.append(r1)
                down.append(w2)
                self.listen(i, up[i])
            cur = None
            while any(x is not None for x in self.want):
                self.step += 1
                if self.step > self.policy.get("max_steps", 60000):
                    self.stuck = True
                    break
                nxt = self.choose(cur)
                if nxt != cur:
                    self.switches.append([self.step, nxt])
                    self.asleep.discard(cur)
                cur = nxt
                kind, name = self.want[cur][:2]
                if kind != "read":
                    self.count[cur] += 1
                self.trace.append((cur, kind, name))
                _send(down[cur], json.dumps(
                    [now, [p for i, p in enumerate(alive)
                           if i != cur and p]]).encode())
                now = self.listen(cur, up[cur])
                if self.want[cur] is None:
                    alive[cur] = 0
                    results[cur] = self.collect(cur, up[cur])
                else:
                    alive[cur] = self.want[cur][3]
                    if self.want[cur][0] == "sleep":
                        self.asleep.add(cur)
                    elif self.asleep - {cur}:
                        # somebody moved: the others may look again
                        self.asleep = {cur} & self.asleep
                    if self.want[cur][0] in NAMES and \
                            self.rng.random() < self.policy.get("park", .5):
                        self.parked.add(cur)
        finally:
            for fd in up + down:
                os.close(fd)
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
        return results

    def listen(self, i, fd):
        data = _recv(fd)
        if data is None:
            raise HarnessError("a simulated process vanished")
        self.want[i] = json.loads(data)
        now = self.want[i][2]
        if self.want[i][0] == "end":
            self.want[i] = None
        return now

    def collect(self, i, fd):
        reply = pickle.loads(_recv(fd))
        if "failed" in reply:
            raise HarnessError(reply["failed"])
        w = self.worlds[i]
        w.log, w.stats = reply["log"], reply["stats"]
        w.sim_seconds, w.now = reply["secs"], reply["now"]
        return reply["value"]
