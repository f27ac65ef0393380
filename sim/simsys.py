""" Simulated system services: locks, clock, and the thread scheduler's view of them.

install() must run before curver (or numpy, networkx, queue, ...) is imported, so that every lock made by Python code is
a simulated one: acquiring a taken lock blocks the simulated thread (or, when nobody else can run, is a deadlock). """
import _thread, threading, time, random

class Deadlock(BaseException):
    """ Every simulated thread waits for another one. """

SCHED = None  # The active scheduler, if any.
REAL_ALLOCATE = _thread.allocate_lock

class SimLock:
    def __init__(self):
        self._taken = False
    def acquire(self, blocking=True, timeout=-1):
        while self._taken:
            if not blocking: return False
            if SCHED is None or not SCHED.block_on(self):
                if timeout is not None and timeout >= 0:
                    CLOCK.advance(timeout)
                    return False
                raise Deadlock('lock is held and nobody can release it')
        self._taken = True
        return True
    __enter__ = acquire
    acquire_lock = acquire
    def release(self):
        if not self._taken: raise RuntimeError('release unlocked lock')
        self._taken = False
        if SCHED is not None: SCHED.unblock(self)
    release_lock = release
    def __exit__(self, *args): self.release()
    def locked(self): return self._taken
    locked_lock = locked
    def _at_fork_reinit(self): self._taken = False

class SimRLock:
    def __init__(self):
        self._lock = SimLock(); self._owner = None; self._count = 0
    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me; self._count = 1
            return True
        return False
    __enter__ = acquire
    def release(self):
        if self._owner != threading.get_ident(): raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()
    def __exit__(self, *args): self.release()
    def _is_owned(self): return self._owner == threading.get_ident()
    def _release_save(self):
        state = (self._count, self._owner); self._count = 0; self._owner = None; self._lock.release(); return state
    def _acquire_restore(self, state):
        self._lock.acquire(); self._count, self._owner = state
    def _recursion_count(self): return self._count if self._is_owned() else 0
    def _at_fork_reinit(self): self.__init__()

class Clock:
    """ Simulated time: advances a little with every reading, and by jumps when told to. """
    def __init__(self): self.now = 1_600_000_000.0; self.reads = 0; self.skew = 0.0; self.slept = 0.0; self.tick = 1e-4; self.stall = 0
    def advance(self, dt): self.now += max(dt, 0)
    def mono(self):
        self.reads += 1
        self.now += self.tick
        if self.stall and self.reads % self.stall == 0: self.now += 1000 * self.tick  # The process did not run for a while.
        return self.now
    def read(self): return self.mono() + self.skew
    def sleep(self, dt):
        self.slept += dt
        self.now += dt

CLOCK = Clock()
CLOCK_ON = False
REAL = dict((name, getattr(time, name)) for name in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'sleep'))

def _seam(name, simulated):
    real = REAL[name]
    def seam(*args): return simulated(*args) if CLOCK_ON else real(*args)
    seam.__name__ = name
    return seam

def install():
    # The real clock until a run starts: whoever has done `from time import monotonic` gets the simulated one then, too.
    for name, simulated in (('time', lambda: CLOCK.read()), ('monotonic', lambda: CLOCK.mono()), ('perf_counter', lambda: CLOCK.mono()), ('process_time', lambda: CLOCK.mono()),
            ('time_ns', lambda: int(CLOCK.read() * 1e9)), ('monotonic_ns', lambda: int(CLOCK.mono() * 1e9)), ('perf_counter_ns', lambda: int(CLOCK.mono() * 1e9)), ('sleep', lambda dt: CLOCK.sleep(dt))):
        setattr(time, name, _seam(name, simulated))
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock

def install_clock(start=None, skew=0.0, tick=1e-4, stall=0):
    """ Put the simulated clock behind the time module (in this process only). """
    global CLOCK_ON
    CLOCK.__init__()
    if start is not None: CLOCK.now = start
    CLOCK.skew, CLOCK.tick, CLOCK.stall = skew, tick, stall
    CLOCK_ON = True

class Scheduler:
    """ Runs simulated threads (real threads parked on batons, exactly one of which runs).

    Who runs next is decided by the caller through switch(); a finished or blocked thread hands over to the lowest
    numbered runnable one after it. """
    def __init__(self, bodies):
        self.n = len(bodies)
        self.bodies = bodies
        self.batons = [REAL_ALLOCATE() for _ in bodies]
        self.done_baton = REAL_ALLOCATE()
        for b in self.batons + [self.done_baton]: b.acquire()
        self.finished = [False] * self.n
        self.blocked = [None] * self.n
        self.current = None
        self.switches = 0
        self.deadlock = False
    def run(self, first=0):
        global SCHED
        SCHED = self
        for i in range(self.n): _thread.start_new_thread(self._main, (i,))
        self.current = first
        self.batons[first].release()
        self.done_baton.acquire()
        SCHED = None
    def _main(self, i):
        self.batons[i].acquire()
        try:
            self.bodies[i]()
        finally:
            self.finished[i] = True
            nxt = self._next(i)
            if nxt is None:
                stuck = [j for j in range(self.n) if not self.finished[j]]
                if stuck:  # The rest is deadlocked: let the first one find out.
                    self.deadlock = True
                    nxt = stuck[0]
                    self.blocked[nxt] = None
                    self.current = nxt
                    self.batons[nxt].release()
                else:
                    self.done_baton.release()
            else:
                self.current = nxt
                self.batons[nxt].release()
    def _next(self, i):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if not self.finished[j] and self.blocked[j] is None: return j
        return None
    def switch(self, to):
        """ Called by the running thread: let thread `to` run instead. Returns when this thread is scheduled again. """
        me = self.current
        if to == me or self.finished[to] or self.blocked[to] is not None: return False
        self.switches += 1
        self.current = to
        self.batons[to].release()
        self.batons[me].acquire()
        return True
    def block_on(self, lock):
        if self.deadlock: return False
        me = self.current
        self.blocked[me] = lock
        to = self._next(me)
        if to is None:
            self.blocked[me] = None
            return False
        self.switches += 1
        self.current = to
        self.batons[to].release()
        self.batons[me].acquire()
        return not self.deadlock
    def unblock(self, lock):
        for j in range(self.n):
            if self.blocked[j] is lock: self.blocked[j] = None
