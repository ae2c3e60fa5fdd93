"""Deterministic scheduler for real threads.

Every task is a real thread, but only the holder of the baton runs.  At every
yield point (a line or a bytecode instruction of library code, delivered by
sys.monitoring) the policy decides whether another task continues.  The
schedule is a pure function of the policy (seeded), is recorded as segments
[task, steps] and can be replayed from those segments.

A task that blocks on a real lock keeps the baton without making steps; the
supervisor then passes the baton on (logged as "block"); when every unfinished
task is blocked this way the run is a deadlock.
"""
import random
import threading
import time
from . import mon

STALL = 0.4


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Quantum:
    """geometric quanta, uniformly random next task"""

    def __init__(self, seed, mean):
        self.r, self.mean = random.Random(seed), mean

    def first(self, tasks):
        t = self.r.choice(tasks)
        return t, self._q()

    def _q(self):
        return 1 + int(self.r.expovariate(1.0 / self.mean)) if self.mean > 1 else self.r.choice((1, 1, 2))

    def next(self, cur, runnable):
        return self.r.choice(runnable), self._q()


class Pct:
    """priorities with d change points (probabilistic concurrency testing)"""

    def __init__(self, seed, d, length, ntasks):
        self.r = random.Random(seed)
        self.prio = list(range(ntasks))
        self.r.shuffle(self.prio)
        self.points = sorted(self.r.randrange(1, max(2, length)) for _ in range(d))
        self.done = 0
        self.low = -1

    def _quota(self):
        if self.points:
            q = max(1, self.points[0] - self.done)
            return q
        return 1 << 60

    def first(self, tasks):
        return self._best(tasks), self._quota()

    def _best(self, tasks):
        return max(tasks, key=lambda t: self.prio[t])

    def used(self, n):
        self.done += n

    def next(self, cur, runnable):
        if self.points and self.done >= self.points[0]:
            self.points.pop(0)
            if cur is not None:
                self.prio[cur] = self.low
                self.low -= 1
        return self._best(runnable), self._quota()


class Segments:
    """replay of recorded segments; falls back to run-to-completion"""

    def __init__(self, segs):
        self.segs = [list(s) for s in segs]

    def _take(self, runnable):
        while self.segs:
            t, n = self.segs.pop(0)
            if t in runnable and n > 0:
                return t, n
        return min(runnable), 1 << 60

    def first(self, tasks):
        return self._take(tasks)

    def next(self, cur, runnable):
        return self._take(runnable)


def policy(spec, ntasks):
    k = spec["pol"]
    if k == "quantum":
        return Quantum(spec["seed"], spec["mean"])
    if k == "pct":
        return Pct(spec["seed"], spec["d"], spec["len"], ntasks)
    if k == "segments":
        return Segments(spec["segs"])
    raise ValueError(k)


class Sched:
    def __init__(self, spec, instr=False, max_steps=3_000_000):
        self.spec, self.instr, self.max_steps = spec, instr, max_steps
        self.trace = []
        self.steps = 0
        self.switches = 0
        self.blocks = 0
        self.places = set()
        self.over = False
        self.inject = None      # called at every step of every task (may raise)

    # -- inside tasks
    def _yield(self, code, pos):
        me = getattr(self.local, "id", None)
        if me is None:
            return
        if self.cur != me:
            # a thread that was blocked natively and resumed without the baton
            self._await(me)
        self.steps += 1
        self.seg += 1
        if self.inject is not None:
            self.inject(me)
        if self.steps > self.max_steps:
            self.over = True
            raise mon.StepBudget("schedule too long")
        if self.seg >= self.quota:
            self._switch(me, code, pos)

    def _await(self, me):
        with self.cv:
            self.blocked.discard(me)
            self.waiting.add(me)
            self.cv.notify_all()
            while self.cur != me:
                if self.abort:
                    raise Abort()
                self.cv.wait(0.5)
            self.waiting.discard(me)

    def _close_seg(self, me):
        if self.seg:
            self.trace.append([me, self.seg])
            if hasattr(self.pol, "used"):
                self.pol.used(self.seg)
        self.seg = 0

    def _switch(self, me, code, pos):
        self._close_seg(me)
        runnable = [t for t in range(self.n) if t not in self.finished and (t not in self.blocked or t == me)]
        nxt, self.quota = self.pol.next(me, runnable)
        if nxt == me:
            return
        self.switches += 1
        self.places.add((me, code.co_name if code is not None else "-", pos, nxt))
        with self.cv:
            self.cur = nxt
            self.cv.notify_all()
        self._await(me)

    def _finish(self, me):
        with self.cv:
            if self.cur == me:
                self._close_seg(me)
            self.finished.add(me)
            self.blocked.discard(me)
            runnable = [t for t in range(self.n) if t not in self.finished and t not in self.blocked]
            if self.cur == me:
                if runnable:
                    self.cur, self.quota = self.pol.next(None, runnable)
                else:
                    self.cur = -1
            self.cv.notify_all()

    def _body(self, me, fn):
        self.local.id = me
        try:
            self._await(me)
            self.results[me] = fn()
        except Abort:
            self.results[me] = ("exc", "Abort", None)
        except BaseException as e:
            self.results[me] = ("exc", type(e).__name__, e)
        finally:
            self.local.id = None
            self._finish(me)

    # -- supervisor
    def run(self, fns):
        self.n = len(fns)
        self.local = threading.local()
        self.cv = threading.Condition()
        self.finished, self.blocked, self.waiting = set(), set(), set()
        self.abort = False
        self.results = [None] * self.n
        self.pol = policy(self.spec, self.n)
        self.seg = 0
        self.cur = -2
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        if self.instr:
            mon.enable(instr=True)
            mon.on_instr = self._yield
        else:
            mon.enable(line=True)
            mon.on_line = self._yield
        for t in threads:
            t.start()
        with self.cv:
            while len(self.waiting) < self.n:
                self.cv.wait(1.0)
            self.cur, self.quota = self.pol.first(list(range(self.n)))
            self.cv.notify_all()
        deadlock = False
        last = (-1, -1)
        since = time.monotonic()
        while True:
            with self.cv:
                if len(self.finished) == self.n:
                    break
                self.cv.wait(0.1)
                if len(self.finished) == self.n:
                    break
                now = (self.steps, self.cur, len(self.finished))
                if now != last:
                    last, since = now, time.monotonic()
                    continue
                if time.monotonic() - since < STALL:
                    continue
                # no step for a while: native block, or a long numerical routine?
                me = self.cur
                others = [t for t in range(self.n) if t not in self.finished and t not in self.blocked and t != me]
                if me >= 0 and others and not self._in_native_lock(threads[me]):
                    if time.monotonic() - since < 20:
                        continue
                if others:
                    self.blocks += 1
                    if me >= 0:
                        self.blocked.add(me)
                        self._close_seg(me)
                    self.cur, self.quota = self.pol.next(None, others)
                    since = time.monotonic()
                    self.cv.notify_all()
                elif time.monotonic() - since > 5.0 and (me < 0 or self._in_native_lock(threads[me])):
                    deadlock = True
                    self.abort = True
                    self.cv.notify_all()
                    break
                elif time.monotonic() - since > 60:
                    self.abort = True
                    self.cv.notify_all()
                    break
        mon.disable()
        if deadlock:
            raise Deadlock("every unfinished task is blocked")
        if self.abort:
            raise RuntimeError("stalled")
        for t in threads:
            t.join(5)
        return self.results

    def _in_native_lock(self, th):
        """is the thread parked in a lock acquisition (as opposed to computing)?"""
        try:
            with open("/proc/self/task/%d/stat" % th.native_id) as f:
                st = f.read().rsplit(")", 1)[1].split()[0]
            return st in ("S", "D")
        except OSError:
            return True


def sample_policy(r, length=400, ntasks=2):
    k = r.wpick([("quantum", 5), ("pct", 4)])
    if k == "quantum":
        return {"pol": "quantum", "seed": r.seed(), "mean": r.pick([1, 2, 5, 15, 50, 200])}
    return {"pol": "pct", "seed": r.seed(), "d": r.int(1, 5), "len": length}


def shrink_segments(segs):
    """fewer preemptions: merge or drop segments"""
    n = len(segs)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            out = segs[:i] + segs[i + size:]
            merged = []
            for t, k in out:
                if merged and merged[-1][0] == t:
                    merged[-1][1] += k
                else:
                    merged.append([t, k])
            if len(merged) < n:
                yield merged
        if size == 1:
            break
        size //= 2
