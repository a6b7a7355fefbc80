"""Deterministic thread scheduler.

Real threads (so threading.local, locks and generators are the real thing), but only the one
holding the baton runs. A switch can happen at every line (or instruction) of the code under
test, reported by sys.monitoring, and at every point() of the harness; which switches happen
is decided by the plan alone:

    ['at', [[thread, local step, next thread], ...]]      explicit preemptions
    ['frac', [[thread, fraction of its solo steps, next], ...]]
    ['rr', quantum, phase]                                round robin

When a thread ends or blocks the lowest runnable one goes on.
"""
import _thread
import sys
import threading

from . import world
from .stream import Passthru, SimHang, PlanError

TOOL = 4
_active = None           # the scheduler whose threads run now
_granularity = None
_real_lock = threading.Lock
_real_rlock = threading.RLock


class Deadlock(Passthru):
    pass


def _on_event(code, where):
    s = _active
    if s is not None:
        s._step(code, where)


def instrument(gran):
    """Switch event delivery on for every code object of the code under test."""
    global _granularity
    m = sys.monitoring
    if _granularity is None:
        m.use_tool_id(TOOL, 'ombott-sim')
        m.register_callback(TOOL, m.events.LINE, _on_event)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_event)
    if _granularity != gran:
        ev = m.events.LINE if gran == 'line' else m.events.INSTRUCTION
        for c in world.all_codes():
            m.set_local_events(TOOL, c, ev)
        _granularity = gran


class Sched:
    def __init__(self, fns, mode, gran='line', budget=400000):
        self.fns = fns
        self.n = len(fns)
        self.steps = [0] * self.n
        self.total = 0
        self.budget = budget
        self.alive = [True] * self.n
        self.blocked = [None] * self.n      # lock a thread waits for
        self.cur = None
        self.errors = [None] * self.n
        self.switches = []                  # (thread, local step, next): the schedule as it happened
        self.locs = set()                   # where preemptions happened
        self.abort = None
        self.gran = gran
        self.turn = [_thread.allocate_lock() for _ in range(self.n)]
        for t in self.turn:
            t.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.tids = {}
        self.at = {}
        self.rr = None
        kind = mode[0]
        if kind == 'at':
            for t, k, to in mode[1]:
                self.at.setdefault((t, k), to)
        elif kind == 'rr':
            self.rr = max(1, mode[1])
            self.quant = max(1, mode[2] or self.rr)
        elif kind != 'solo':
            raise PlanError(kind)
        self.first = mode[-1] if kind == 'at' and isinstance(mode[-1], int) else 0

    # -- called in the running thread
    def _step(self, code, where):
        me = self.tids.get(_thread.get_ident())
        if me is None:
            return
        self._tick(me, code, where)

    def point(self):
        me = self.tids.get(_thread.get_ident())
        if me is not None:
            self._tick(me, None, None)

    def me(self):
        return self.tids.get(_thread.get_ident())

    def _tick(self, me, code, where):
        if self.abort is not None:
            raise self.abort
        self.steps[me] += 1
        self.total += 1
        if self.total > self.budget:
            self.abort = SimHang('%d steps without an end' % self.total)
            raise self.abort
        to = None
        if self.rr is not None:
            self.quant -= 1
            if self.quant <= 0:
                self.quant = self.rr
                to = self._next(me)
        elif self.at:
            to = self.at.get((me, self.steps[me]))
        if to is not None and to != me and 0 <= to < self.n and self.alive[to] and self.blocked[to] is None:
            self.switches.append((me, self.steps[me], to))
            if code is not None:
                self.locs.add((code.co_name, where))
            self._hand(me, to)

    def _next(self, me):
        for d in range(1, self.n):
            t = (me + d) % self.n
            if self.alive[t] and self.blocked[t] is None:
                return t
        return None

    def _hand(self, me, to):
        self.cur = to
        self.turn[to].release()
        self.turn[me].acquire()
        if self.abort is not None:
            raise self.abort

    def _pick(self):
        for t in range(self.n):
            if self.alive[t] and self.blocked[t] is None:
                return t
        return None

    # -- locks of the code under test
    def block(self, me, lock):
        """me cannot have lock now: let others run until it is free."""
        self.blocked[me] = lock
        to = self._pick()
        if to is None:
            self.abort = Deadlock('all threads wait for locks')
            self._release_all()
            raise self.abort
        self._hand(me, to)

    def unblock(self, lock):
        for t in range(self.n):
            if self.blocked[t] is lock:
                self.blocked[t] = None

    def _release_all(self):
        for t in range(self.n):
            try:
                self.turn[t].release()
            except RuntimeError:
                pass

    # -- threads
    def _main(self, i):
        self.tids[_thread.get_ident()] = i
        self.turn[i].acquire()
        try:
            if self.abort is None:
                self.fns[i]()
        except BaseException as e:
            self.errors[i] = e
        self.alive[i] = False
        self.tids.pop(_thread.get_ident(), None)
        to = self._pick()
        if self.abort is not None:
            self._release_all()
        if any(self.alive):
            if to is None and self.abort is None:
                self.abort = Deadlock('a thread waits for a lock that nobody holds')
                self._release_all()
            elif to is not None:
                self.cur = to
                try:
                    self.turn[to].release()
                except RuntimeError:
                    pass
        else:
            self.main.release()

    def run(self):
        global _active
        instrument(self.gran)
        prev = _active
        _active = self
        try:
            ts = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
            for t in ts:
                t.start()
            first = self.first if 0 <= self.first < self.n else 0
            self.cur = first
            self.turn[first].release()
            if not self.main.acquire(timeout=120):
                self.abort = SimHang('threads do not end')
                self._release_all()
                raise self.abort
            for t in ts:
                t.join(10)
        except BaseException as e:
            if self.abort is None:
                self.abort = SimHang('aborted')
            self._release_all()
            raise
        finally:
            _active = prev
        for e in self.errors:
            if isinstance(e, Passthru):
                raise e
        if self.abort is not None:
            raise self.abort
        return self


def resolve(mode, solo_steps):
    """'frac' schedules in absolute steps."""
    if mode[0] != 'frac':
        return mode
    return ['at', [[t, max(1, int(f * solo_steps[t % len(solo_steps)])), to] for t, f, to in mode[1]], mode[2] if len(mode) > 2 else 0]


def gen_mode(rng, n):
    k = rng.random()
    if k < 0.25:
        return ['rr', rng.choice([1, 1, 2, 3, 5, 8, 13, 21, 40]), rng.randint(1, 40)]
    npre = rng.choice([1, 1, 2, 2, 3, 4, 6, 10])
    out = []
    for _ in range(npre):
        t = rng.randrange(n)
        out.append([t, round(rng.random(), 5), rng.choice([x for x in range(n) if x != t])])
    if k < 0.45:
        # a burst: the same thread is preempted several times close together
        t = rng.randrange(n)
        f = rng.random()
        for j in range(rng.randint(2, 6)):
            out.append([t, round(min(0.9999, f + j * 0.002), 5), rng.choice([x for x in range(n) if x != t])])
    return ['frac', out, rng.randrange(n)]


def point():
    s = _active
    if s is not None:
        s.point()


# ------------------------------------------------------------------ locks as the code under test sees them
class SimLock:
    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.re = reentrant
        self.real = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.me() if s is not None else None
        if me is None:
            who = ('os', _thread.get_ident())
            if self.re and self.owner == who:
                self.count += 1
                return True
            if self.owner is not None:
                return False if not blocking else self._wedge()
            self.owner, self.count = who, 1
            return True
        who = ('sim', id(s), me)
        s._tick(me, None, None)
        while self.owner is not None:
            if self.re and self.owner == who:
                self.count += 1
                return True
            if not blocking or timeout == 0:
                return False
            s.block(me, self)
        self.owner, self.count = who, 1
        return True

    def _wedge(self):
        raise Deadlock('lock is held for ever')

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            s = _active
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        s = _active
        me = s.me() if s is not None else None
        return self.owner in (('sim', id(s), me), ('os', _thread.get_ident()))

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _for_code_under_test():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if str(f.f_globals.get('__name__')).split('.')[0] == 'ombott':
            return True
        f = f.f_back
    return False


def _lock():
    return SimLock() if _for_code_under_test() else _real_lock()


def _rlock():
    return SimLock(True) if _for_code_under_test() else _real_rlock()


class locks:
    """with locks(): threading.Lock and RLock created by the code under test are the simulated ones."""

    def __enter__(self):
        threading.Lock = _lock
        threading.RLock = _rlock

    def __exit__(self, *a):
        threading.Lock = _real_lock
        threading.RLock = _real_rlock
