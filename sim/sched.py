"""Threads under a seeded scheduler: real threads, one of which runs at a time; a thread
may be suspended at every line of the library (and of user-defined nodes)."""
import os
import random
import sys
import threading
import time

from . import seams

_alloc = threading.Lock
_RLock = threading.RLock
USER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'user.py')
_sleep = time.sleep


class Dead(BaseException):
    pass


class Deadlock(Exception):
    pass


class _T(object):
    def __init__(self, i, fn):
        self.i, self.fn, self.go = i, fn, _alloc()
        self.go.acquire()
        self.done = False
        self.err = None
        self.lines = 0
        self.wants = None      # the lock it waits for


LENGTHS = {'fine': (1, 1, 2, 3, 5, 8), 'medium': (1, 5, 20, 60, 150), 'coarse': (3, 50, 300, 1000), 'early': None, 'rare': None}


class Sched(object):
    current = None

    def __init__(self, fns, seed=0, mode='fine', segments=None):
        self.ts = [_T(i, f) for i, f in enumerate(fns)]
        self.rng = random.Random(seed)
        self.mode = mode
        self.given = [list(s) for s in segments] if segments is not None else None
        self.taken = []            # [thread, lines] actually run
        self.left = 0
        self.run_now = None
        self.dead = False
        self.done = threading.Event()
        self.switches = 0
        self.places = set()
        self.files = {}
        self.total = 0
        self.deadlock = False

    # ---- decisions
    def length(self):
        r = self.rng
        if self.mode == 'early':
            return r.choice((1, 2, 4)) if self.total < 400 else 100000
        if self.mode == 'rare':
            return int(r.expovariate(1 / 250.)) + 1 if self.switches < 4 else 1000000
        return r.choice(LENGTHS[self.mode])

    def choose(self, cur):
        """next thread and how long it may run"""
        alive = [t for t in self.ts if not t.done and (t.wants is None or t.wants.free_for(t))]
        if not alive:
            return None
        if self.given is not None:
            while self.given:
                i, n = self.given.pop(0)
                if any(t.i == i for t in alive):
                    self.left = n
                    return self.ts[i]
            self.left = 1 << 60
            return alive[0]
        other = [t for t in alive if t is not cur]
        t = self.rng.choice(other or alive)
        self.left = self.length()
        return t

    # ---- tracing
    def mine(self, fn):
        v = self.files.get(fn)
        if v is None:
            v = self.files[fn] = (fn.startswith(seams.PKG + os.sep) and not os.path.basename(fn).startswith('test_')) or fn == USER
        return v

    def tracer(self, t):
        def local(frame, event, arg):
            if event == 'line':
                self.line(t, frame)
            return local

        def glob(frame, event, arg):
            if self.mine(frame.f_code.co_filename):
                return local
            return None
        return glob

    def line(self, t, frame=None):
        if self.dead:
            raise Dead()
        t.lines += 1
        self.total += 1
        self.left -= 1
        if self.left <= 0:
            if frame is not None:
                self.places.add((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            self.switch(t)

    def switch(self, t):
        n = self.choose(t)
        if n is None:
            self.deadlock = self.dead = True
            self.done.set()
            raise Dead()
        if n is t:
            return
        self.switches += 1
        self.note(n)
        n.go.release()
        t.go.acquire()
        if self.dead:
            raise Dead()

    def note(self, n):
        t = self.run_now
        if t is not None:
            # a thread that ended was not suspended at its last line
            self.taken.append([t.i, t.lines - self.mark + (1 if t.done else 0)])
        self.run_now, self.mark = n, n.lines

    # ---- threads
    def body(self, t):
        t.go.acquire()
        try:
            if not self.dead:
                sys.settrace(self.tracer(t))
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except Dead:
            pass
        except BaseException as e:
            t.err = e
        t.done = True
        if self.dead:
            return
        n = self.choose(t)
        if n is None:
            self.note(t)
            if any(not x.done for x in self.ts):
                self.deadlock = self.dead = True
            self.done.set()
        else:
            self.note(n)
            n.go.release()

    def run(self):
        Sched.current = self
        hs = []
        try:
            for t in self.ts:
                h = threading.Thread(target=self.body, args=(t,))
                h.daemon = True
                t.ident = h
                hs.append(h)
                h.start()
            n = self.choose(None)
            self.note(n)
            n.go.release()
            while not self.done.is_set():
                _sleep(.0005)
        finally:
            self.dead_if_unfinished()
            Sched.current = None
        for h in hs:
            if not self.dead:
                h.join()

    def dead_if_unfinished(self):
        if not self.done.is_set() or self.deadlock:
            self.dead = True
            for t in self.ts:
                if not t.done:
                    try:
                        t.go.release()
                    except RuntimeError:
                        pass

    def me(self):
        h = threading.current_thread()
        for t in self.ts:
            if t.ident is h:
                return t


class SimLock(object):
    """What threading.Lock and RLock are for code under test: waiting is a scheduling decision."""

    def __init__(self, re=False):
        self.re, self.owner, self.n = re, None, 0

    def free_for(self, t):
        return self.owner is None or (self.re and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        t = s.me() if s else 'main'
        while not self.free_for(t):
            if not blocking:
                return False
            if not hasattr(t, 'wants'):
                raise Deadlock('the main thread waits for a lock')
            t.wants = self
            s.left = 0
            try:
                s.switch(t)
            finally:
                t.wants = None
        self.owner = t
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def __reduce__(self):
        raise TypeError('cannot pickle a lock')


def _by_library(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(seams.PKG + os.sep)


class Locks(object):
    """Context: locks created by the library are simulated ones."""

    def __enter__(self):
        def Lock():
            return SimLock() if _by_library() else _alloc()

        def RLock():
            return SimLock(True) if _by_library() else _RLock()
        threading.Lock, threading.RLock = Lock, RLock
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _alloc, _RLock
