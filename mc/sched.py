"""Runs real threads one at a time under an explicit schedule, switching only at scheduling points: every executed line of the code
under test, and every point() of a stand-in. Explores all schedules with a bounded number of preemptions."""
import sys, threading
from mc.core import Bad

LIMIT = 20000       # points in one run: more is taken for a livelock


class Diverged(Exception):
    pass


class Run:
    def __init__(self, bodies, prefix, traced):
        self.bodies, self.prefix, self.traced = bodies, prefix, traced
        self.n = len(bodies)
        self.locks = [threading.Semaphore(0) for _ in bodies]
        self.alive = set(range(self.n))
        self.points = []        # (enabled threads in canonical order, index chosen, was the running one enabled)
        self.cur = None
        self.errors = [None] * self.n
        self.results = [None] * self.n
        self.done = threading.Semaphore(0)
        self.ids = {}

    def choose(self):
        """Index of the next thread; the running one first if it may go on."""
        running = self.cur in self.alive
        enabled = ([self.cur] if running else []) + sorted(self.alive - {self.cur})
        i = len(self.points)
        if i > LIMIT:
            raise Diverged("no end after %d points" % LIMIT)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(enabled):
            raise Diverged("choice %d of %r at point %d" % (k, enabled, i))
        self.points.append((tuple(enabled), k, running))
        return enabled[k]

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        nxt = self.choose()
        if nxt != me:
            self.cur = nxt
            self.locks[nxt].release()
            self.locks[me].acquire()

    def tracer(self, frame, event, arg):
        if not self.traced(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def thread(self, i):
        self.ids[threading.get_ident()] = i
        self.locks[i].acquire()
        sys.settrace(self.tracer)
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            try:
                if self.alive:
                    self.cur = self.choose()
                    self.locks[self.cur].release()
                else:
                    self.done.release()
            except Diverged as e:
                self.errors[i] = e
                self.done.release()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.cur = self.choose()
        self.locks[self.cur].release()
        self.done.acquire()
        for e in self.errors:
            if isinstance(e, Diverged):
                raise e
        for t in ts:
            t.join()
        return self


def cost(run, upto):
    return sum(1 for e, k, running in run.points[:upto] if running and k)


def one(make, prefix, traced):
    """make(point) -> bodies, where point() is a scheduling point for stand-ins."""
    box = []
    bodies = make(lambda: box and box[0].point())
    run = Run(bodies, prefix, traced)
    box.append(run)
    run.go()
    if len(run.points) < len(prefix):
        raise Diverged("the run ended before its prefix")
    return run


def branches(run, start, bound):
    """Prefixes that deviate once more, at or after point start, within the bound."""
    choices = [k for _, k, _ in run.points]
    for i in range(start, len(run.points)):
        enabled, _, running = run.points[i]
        if cost(run, i) + (1 if running else 0) <= bound:
            for alt in range(1, len(enabled)):
                yield choices[:i] + [alt]


def explore(make, prefix, bound, verdict, traced):
    """Everything below the prefix within the preemption bound; returns (schedules, points)."""
    run = one(make, prefix, traced)
    verdict(run)
    n, pts = 1, len(run.points)
    for p in branches(run, len(prefix), bound):
        a, b = explore(make, p, bound, verdict, traced)
        n += a
        pts += b
    return n, pts
