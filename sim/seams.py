"""Everything nondeterministic that the properties depend on goes through here."""
import gc
import os
import random
import sys
import time
import types
import weakref

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'chumpy')
MODS = ['utils', 'ch', 'ch_ops', 'reordering', 'linalg', 'ch_random', 'logic', 'optimization',
        'optimization_internal', 'extras', 'monitor', 'testing', 'version']

_real_time = time.time
_RealWKD = weakref.WeakKeyDictionary
_code = {}


# ------------------------------------------------------------------ fresh import
class _Loader(object):
    """Imports chumpy from /repo's current source, compiling each file once per process."""

    def find_spec(self, name, path=None, target=None):
        if name != 'chumpy' and not name.startswith('chumpy.'):
            return None
        from importlib.machinery import ModuleSpec
        rel = name.split('.')[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            fn, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.exists(base + '.py'):
            fn, pkg = base + '.py', False
        else:
            return None
        spec = ModuleSpec(name, self, origin=fn, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        if fn not in _code:
            with open(fn, 'rb') as f:
                _code[fn] = compile(f.read(), fn, 'exec', dont_inherit=True)
        exec(_code[fn], module.__dict__)


_loader = _Loader()


def purge():
    for k in [k for k in sys.modules if k == 'chumpy' or k.startswith('chumpy.') or k == 'sim_user']:
        del sys.modules[k]


def fresh():
    """A chumpy whose process-wide tables are all empty."""
    if _loader not in sys.meta_path:
        sys.meta_path.insert(0, _loader)
    purge()
    import chumpy
    return chumpy


# ------------------------------------------------------------------ collection
class Keep(object):
    """Holds every expression strongly until the simulator decides to collect, so
    that the interpreter's own collector never decides when a weak link dies."""

    def __init__(self):
        self.objs = []
        self.collections = 0
        self.ids = None

    def add(self, o):
        self.objs.append(o)

    def collect(self, rounds=2):
        refs, seen = [], set()
        for o in self.objs:
            if id(o) not in seen:
                seen.add(id(o))
                refs.append(weakref.ref(o))
        o = None
        del self.objs[:]
        sys.exc_info()
        for _ in range(rounds):
            gc.collect()
        self.objs = [x for x in (r() for r in refs) if x is not None]
        self.collections += 1
        if self.ids is not None:
            self.ids.bury({type(o) for o in self.objs})
        return len(refs), len(self.objs)


def make_wkd(keep):
    class KeepWKD(_RealWKD):
        def __setitem__(self, k, v):
            keep.add(k)
            _RealWKD.__setitem__(self, k, v)

        def setdefault(self, k, d=None):
            keep.add(k)
            return _RealWKD.setdefault(self, k, d)
    return KeepWKD


# ------------------------------------------------------------------ set order
class SimSet(set):
    """A set whose iteration order is drawn from the run's seed."""
    rng = random.Random(0)
    used = 0

    def __iter__(self):
        L = list(set.__iter__(self))
        if len(L) > 1:
            SimSet.used += 1
            try:
                L.sort(key=_stable_key)
            except Exception:
                pass
            SimSet.rng.shuffle(L)
        return iter(L)

    def _w(name):
        f = getattr(set, name)

        def g(self, *a):
            r = f(self, *a)
            return SimSet(r) if type(r) is set else r
        return g
    for _n in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy',
               '__or__', '__and__', '__sub__', '__xor__'):
        locals()[_n] = _w(_n)
    del _w, _n

    def __reduce__(self):
        return (SimSet, (list(set.__iter__(self)),))


def _stable_key(v):
    if isinstance(v, (str, int, float)):
        return (0, str(v))
    if isinstance(v, tuple):
        return (1, repr(v))
    raise TypeError


# ------------------------------------------------------------------ addresses
class SimId(object):
    """id() for the library: the address of an expression or type that died is given to
    the next one that is constructed, as an allocator is free to do."""

    def __init__(self, base):
        self.base = base
        self.by_real = {}
        self.free = {'type': [], 'object': []}
        self.next = 16
        self.reused = 0
        self.constructing = 0

    def __call__(self, o):
        k = id(o)
        e = self.by_real.get(k)
        if e is not None:
            if e[0]() is o:
                return e[1]
            self.gone(k, e)
        if isinstance(o, type):
            return self.enter(o, 'type', False)
        if isinstance(o, self.base):
            return self.enter(o, 'object', self.constructing > 0)
        return k

    def enter(self, o, sort, reuse):
        pool = self.free[sort]
        if reuse and not pool:
            self.reap()
        if reuse and pool:
            n = pool.pop()
            self.reused += 1
        else:
            n = self.next
            self.next += 16
        self.by_real[id(o)] = ((lambda: o) if sort == 'type' else weakref.ref(o), n, sort)
        return n

    def gone(self, k, e):
        del self.by_real[k]
        self.free[e[2]].append(e[1])

    def reap(self):
        for k, e in list(self.by_real.items()):
            if e[0]() is None:
                self.gone(k, e)

    def bury(self, alive):
        """Types without instances count as dead after a collection.  (When the memory of a
        type is really freed depends on the interpreter's method caches.)"""
        for k, e in list(self.by_real.items()):
            if e[2] == 'type' and e[0]().__name__ == 'Fresh' and e[0]() not in alive:
                self.gone(k, e)


# ------------------------------------------------------------------ clock
class Clock(object):
    """time.time for the code under test.  mode: 'steady', 'frozen', 'jumpy', 'slow'."""

    def __init__(self, rng, mode='steady'):
        self.rng, self.mode, self.t, self.reads, self.span = rng, mode, 1.6e9, 0, 0.0
        self.zero = rng.choice([0, 1, 1]) if mode == 'frozen' else 0   # a clock that never got set

    def __call__(self):
        self.reads += 1
        if self.mode == 'steady':
            d = 1e-4
        elif self.mode == 'frozen':
            d = -self.t if self.reads == self.zero else 0.0
        elif self.mode == 'slow':
            d = self.rng.choice([0.05, 0.2, 5.0, 60.0])
        else:
            d = self.rng.choice([1e-4, 0.0, 0.5, 3600.0, -1.0, -86400.0, 1e-9, -self.t])
        self.t += d
        self.span += abs(d)
        return self.t


# ------------------------------------------------------------------ numpy / scipy calls
class NPFault(object):
    """Counts the calls the library makes to NumPy and SciPy and lets one of them fail."""

    def __init__(self):
        self.count = 0
        self.at = None
        self.exc = None
        self.on = False
        self.fired = None

    def arm(self, at, exc):
        self.count, self.at, self.exc, self.on, self.fired = 0, at, exc, True, None

    def off(self):
        self.on = False
        n = self.count
        self.count = 0
        return n

    def hit(self, name):
        if not self.on:
            return
        self.count += 1
        if self.at is not None and self.count == self.at:
            self.fired = name
            raise self.exc('simulated: %s could not allocate' % name)


class _Call(object):
    __slots__ = ('f', 'name', 'nf', '__name__')

    def __init__(self, f, name, nf):
        self.f, self.name, self.nf = f, name, nf
        self.__name__ = name

    def __call__(self, *a, **k):
        self.nf.hit(self.name)
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.f, n)


class ModProxy(object):
    def __init__(self, mod, name, nf):
        self.__dict__['_mod'] = mod
        self.__dict__['_name'] = name
        self.__dict__['_nf'] = nf
        self.__dict__['_memo'] = {}

    def __getattr__(self, n):
        m = self.__dict__['_memo']
        if n in m:
            return m[n]
        v = getattr(self.__dict__['_mod'], n)
        if isinstance(v, types.ModuleType):
            v = ModProxy(v, self._name + '.' + n, self._nf)
        elif isinstance(v, type):
            # sparse constructors allocate; plain types stay usable in isinstance
            if n.endswith('_matrix') and n[:3] in ('csc', 'csr'):
                v = _make_cls(v, self._name + '.' + n, self._nf)
        elif callable(v):
            v = _Call(v, self._name + '.' + n, self._nf)
        m[n] = v
        return v


class _Cls(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __call__(cls, *a, **k):
        cls._nf.hit(cls._nm)
        return cls._real(*a, **k)


def _make_cls(real, name, nf):
    return _Cls(real.__name__, (), {'_real': real, '_nf': nf, '_nm': name})


# ------------------------------------------------------------------ interrupts at library lines
class LineFault(object):
    def __init__(self):
        self.prefix = PKG + os.sep
        self.count = 0
        self.at = None
        self.exc = None
        self.fired = None
        self.on = False
        self.seen = None
        self._files = {}

    def _mine(self, fn):
        r = self._files.get(fn)
        if r is None:
            base = os.path.basename(fn)
            r = self._files[fn] = fn.startswith(self.prefix) and not base.startswith('test_')
        return r

    def _global(self, frame, event, arg):
        if not self.on or not self._mine(frame.f_code.co_filename):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' and self.on:
            self.count += 1
            if self.seen is not None:
                self.seen.setdefault(frame.f_code, {}).setdefault(frame.f_lineno, []).append(self.count)
            if self.at is not None and self.count == self.at:
                self.fired = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                self.on = False
                sys.settrace(None)
                raise self.exc('simulated interrupt')
        return self._local

    def arm(self, at=None, exc=None):
        self.count, self.at, self.exc, self.fired, self.on = 0, at, exc, None, True
        self.seen = {} if at is None else None  # the lines that are run, in order
        sys.settrace(self._global)

    def off(self):
        sys.settrace(None)
        self.on = False
        return self.count

    def pick(self):
        """what `place` needs to choose one of the lines counted"""
        funcs = [(co.co_filename, list(ls.values())) for co, ls in self.seen.items()]
        own = [ls for fn, ls in funcs if os.path.basename(fn) != 'ch.py']
        return self.count, [ls for fn, ls in funcs], own


def place(counted, f):
    """The line to interrupt, for f in [0, 1): any of the lines that are run, or (half
    of the time) any function, then any of its lines, then any of the times it is run.
    Half of that is for the operations' own functions, which few lines belong to."""
    n, funcs, own = counted
    if f < .5 or not funcs:
        return 1 + int(f * (2 if funcs else 1) * n)
    f = (f - .5) * 4
    at = own if own and f >= 1 else funcs
    f %= 1
    for _ in range(3):
        f *= len(at)
        at, f = at[int(f)], f - int(f)
    return at


# ------------------------------------------------------------------ memory that was not written to
def poisoned(real):
    """np.empty and np.empty_like: what is in new memory is nobody's choice, so it is always the same"""
    def empty(*a, **k):
        r = real(*a, **k)
        if type(r).__name__ == 'ndarray' and r.dtype.kind == 'f':
            r.fill(float('nan'))
        return r
    empty.real = real
    return empty


# ------------------------------------------------------------------ one simulated process
class _Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class World(object):
    """One simulated process image: a fresh chumpy with all seams installed."""

    def __init__(self, seed, setorder=False, clock='steady', npfaults=False, keep=None, ids=False):
        self.rng = random.Random(seed)
        self.keep = keep if keep is not None else Keep()
        self.clock = Clock(random.Random(seed ^ 0x5bd1e995), clock)
        self.np = NPFault()
        self.line = LineFault()
        self.real_stdout = sys.stdout
        self.real_stderr = sys.stderr
        sys.stdout = sys.stderr = _Null()
        weakref.WeakKeyDictionary = make_wkd(self.keep)
        time.time = self.clock
        import numpy
        self.empties = (numpy.empty, numpy.empty_like)
        numpy.empty, numpy.empty_like = poisoned(numpy.empty), poisoned(numpy.empty_like)
        self.closed = False
        try:
            self.ch = fresh()
            C = self.ch.Ch
            self.ids = ids = self.keep.ids = SimId(C) if ids else None
            orig = C.__dict__['__new__'].__func__
            keep_add = self.keep.add

            def __new__(cls, *a, **k):
                if ids is None:
                    o = orig(cls, *a, **k)
                else:
                    ids.constructing += 1
                    try:
                        o = orig(cls, *a, **k)
                        ids(o)
                    finally:
                        ids.constructing -= 1
                keep_add(o)
                return o
            C.__new__ = staticmethod(__new__)
            self.mods = [m for n, m in sys.modules.items() if n == 'chumpy' or n.startswith('chumpy.')]
            if setorder:
                SimSet.rng = random.Random(seed ^ 0x9e3779b9)
                for m in self.mods:
                    m.__dict__['set'] = SimSet
            if ids is not None:
                for m in self.mods:
                    m.__dict__['id'] = ids
            from . import user
            self.user = user.install(self.ch)
            self.user.born = (lambda t: t) if ids is None else (lambda t: ids.enter(t, 'type', True))
            if ids is not None:
                for m in self.mods + [self.user]:
                    for t in list(m.__dict__.values()):
                        if isinstance(t, type):
                            ids(t)
            if npfaults:
                self.proxy_np()
        except BaseException:
            self.close()
            raise

    def proxy_np(self):
        import numpy
        import scipy.sparse
        pn, ps = ModProxy(numpy, 'np', self.np), ModProxy(scipy.sparse, 'sp', self.np)
        for m in self.mods:
            if m.__dict__.get('np') is numpy:
                m.__dict__['np'] = pn
            if m.__dict__.get('sp') is scipy.sparse:
                m.__dict__['sp'] = ps

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.line.off()
        sys.stdout, sys.stderr = self.real_stdout, self.real_stderr
        weakref.WeakKeyDictionary = _RealWKD
        time.time = _real_time
        import numpy
        numpy.empty, numpy.empty_like = self.empties
        purge()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False
