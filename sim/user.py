"""User-defined nodes used by the simulated programs.  They are what a user of the
library writes: a node with two inputs, two options, change notification, a cached
property and a derivative; plus switches through which the simulator makes any of
its methods fail."""
import sys
import types

import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import LinearOperator


class ProbeFailure(Exception):
    pass


class Runaway(BaseException):
    pass


def point_key(v):
    """Points that differ by rounding only are one point."""
    return (np.round(np.asarray(v, dtype=np.float64), 9) + 0.).tobytes()


class Ctl(object):
    """Shared switchboard: which call of which method fails, and a log of all calls."""

    def __init__(self):
        self.calls = 0
        self.at = None
        self.exc = ProbeFailure
        self.fired = None
        self.log = []          # (node tag, method, info)
        self.on = False
        self.logging = False
        self.observer = None   # called on every hit
        self.nodes = ()        # flaky nodes of the objective being minimised
        self.evals = 0         # their evaluations by the minimizer
        self.points = {}       # (node, point) -> what goes wrong there
        self.bad = {}          # number of the point -> what goes wrong
        self.hurt = []
        self.limit = None
        self.watch = False

    def evaluated(self, node, v):
        """What goes wrong at this point (a function of the point, as for any real objective)."""
        if node.__dict__.get('tag') not in self.nodes:
            return None
        key = (node.tag, point_key(v))
        if self.watch:
            self.evals += 1
            if self.limit is not None and self.evals > self.limit:
                raise Runaway('more than %d objective evaluations' % self.limit)
            if key not in self.points:
                self.points[key] = self.bad.get(len(self.points) + 1)
                if self.points[key]:
                    self.hurt.append(self.points[key])
        return self.points.get(key)

    def arm(self, at=None, exc=ProbeFailure):
        self.calls, self.at, self.exc, self.fired, self.on = 0, at, exc, None, True

    def off(self):
        self.on = False
        return self.calls

    def hit(self, node, method, info=None):
        if self.observer is not None:
            self.observer(node, method)
        boom = False
        if self.on:
            self.calls += 1
            boom = self.at is not None and self.calls == self.at
        if self.logging:
            self.log.append((node.__dict__.get('tag'), method + ' (fails)' if boom and method.endswith('exit') else method, info))
        if self.on:
            if boom:
                self.fired = method
                raise self.exc('simulated failure in %s' % method)


def install(ch):
    m = types.ModuleType('sim_user')
    ctl = Ctl()
    m.ctl = ctl
    m.np = np

    class Probe(ch.Ch):
        dterms = 'p', 'q'
        terms = 'scale', 'shift'
        term_order = 'p', 'q', 'scale', 'shift'

        def is_valid(self):
            ctl.hit(self, 'is_valid', None)
            return True, ''

        def __getstate__(self):
            ctl.hit(self, '__getstate__', None)
            return ch.Ch.__getstate__(self)

        def on_changed(self, which):
            ctl.hit(self, 'on_changed:enter', tuple(sorted(which)))
            # derived state kept up to date only through notifications
            d = self.__dict__.setdefault('derived', {})
            if 'p' in which or 'scale' in which:
                d['pp'] = self.scale * (self.p.r * self.p.r)
            if 'q' in which or 'shift' in which:
                d['qs'] = self.q.r + self.shift
            ctl.hit(self, 'on_changed:exit', tuple(sorted(which)))

        @ch.depends_on('p', 'scale')
        def slope(self):
            ctl.hit(self, 'slope', None)
            return 2. * self.scale * self.p.r

        @ch.depends_on(['q', 'shift'])
        def offset(self, out=None):
            ctl.hit(self, 'offset', None)
            v = self.q.r + self.shift
            if out is None or out.shape != v.shape:
                return v
            out[...] = v
            return out

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            d = self.__dict__['derived']
            return d['pp'] + .5 * (d['qs'] + self.offset)

        def compute_dr_wrt(self, wrt):
            if wrt is not self.p and wrt is not self.q:
                return None
            ctl.hit(self, 'compute_dr_wrt', None)
            n = self.p.r.size
            J = sp.csc_matrix((n, n))
            if wrt is self.p:
                J = J + sp.diags([self.slope.ravel()], [0])
            if wrt is self.q:
                J = J + sp.eye(n, n)
            return sp.csc_matrix(J)

    Probe.__module__ = 'sim_user'
    Probe.__qualname__ = 'Probe'
    m.Probe = Probe

    class Wrap(ch.Ch):
        """A node that builds its own inner expression whenever one of its inputs is replaced."""
        dterms = 'a', 'b'
        terms = 'gain',
        term_order = 'a', 'b', 'gain'

        def on_changed(self, which):
            ctl.hit(self, 'on_changed:enter', tuple(sorted(which)))
            key = (id(self.a), id(self.b), self.gain)
            if self.__dict__.get('inner_key') != key:
                ha, hb = ch.ChHandle(x=self.a), ch.ChHandle(x=self.b)
                self.inner = ch.exp(-ha * ha) * self.gain + ha * hb
                self.handles = ha, hb
                self.inner_key = key
            ctl.hit(self, 'on_changed:exit', tuple(sorted(which)))

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            return self.inner.r

        def compute_dr_wrt(self, wrt):
            if wrt is self.a or wrt is self.b:
                ctl.hit(self, 'compute_dr_wrt', None)
                Js = [self.inner.dr_wrt(hd) for hd in self.handles if hd.x is wrt]
                return Js[0] if len(Js) == 1 else Js[0] + Js[1]

    Wrap.__module__ = 'sim_user'
    Wrap.__qualname__ = 'Wrap'
    m.Wrap = Wrap

    class Gauge(ch.Ch):
        """A node whose option is set through a property that validates."""
        dterms = 'a',
        terms = 'level',
        term_order = 'a', 'level'

        @property
        def limit(self):
            return 2. * self.level

        @limit.setter
        def limit(self, v):
            if v < 0:
                raise ValueError('negative limit')
            self.level = v / 2.

        @ch.depends_on('a', 'level')
        def scaled(self):
            ctl.hit(self, 'scaled', None)
            return self.level * self.a.r

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            return self.scaled + 1.

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                ctl.hit(self, 'compute_dr_wrt', None)
                return sp.eye(self.a.size, self.a.size) * self.level

    class Flaky(ch.Ch):
        """Passes its input on; the simulator decides which evaluations go wrong."""
        dterms = 'x',

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            v = self.x.r
            b = ctl.evaluated(self, v)
            if b is None:
                return v.copy()
            v = np.array(v)
            if b == 'nan1':
                v.ravel()[0] = np.nan
            else:
                v[...] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'big': 1e8, 'huge': 1e200}[b]
            return v

        def compute_dr_wrt(self, wrt):
            if wrt is self.x:
                ctl.hit(self, 'compute_dr_wrt', None)
                return sp.eye(self.x.size, self.x.size, format='csc')

    def fresh_type():
        class Fresh(ch.Ch):
            terms = 'k'
            dterms = 'a'

            def compute_r(self):
                return self.k * self.a.r - 1.

            def compute_dr_wrt(self, wrt):
                if wrt is self.a:
                    return sp.eye(self.a.size, self.a.size, format='csc') * self.k
        m.born(Fresh)
        return Fresh
    m.fresh_type = fresh_type

    class Base(ch.Ch):
        terms = 'k'
        dterms = 'a'

        def compute_r(self):
            return self.k * self.a.r

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                return sp.eye(self.a.size, self.a.size, format='csc') * self.k

    class Derived(Base):
        dterms = 'a', 'b'

        def compute_r(self):
            return Base.compute_r(self) + self.b.r ** 2

        def compute_dr_wrt(self, wrt):
            J = Base.compute_dr_wrt(self, wrt)
            if wrt is self.b:
                K = sp.diags([2. * self.b.r.ravel()], [0], format='csc')
                J = K if J is None else J + K
            return J

    class Affine(ch.Ch):
        dterms = 'a', 'b'
        terms = 'M', 'N'

        def compute_r(self):
            return self.M.dot(self.a.r) + self.N.dot(self.b.r)

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                return self.M if wrt is not self.b else self.M + self.N
            if wrt is self.b:
                return self.N

    class Linop(ch.Ch):
        dterms = 'a', 'b'
        terms = 'g',

        def compute_r(self):
            return self.g * self.a.r.ravel()[::-1].reshape(self.a.shape) + self.b.r

        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                n, g, plus = self.a.size, self.g, 1. if wrt is self.b else 0.
                f = lambda v: g * v[::-1] + plus * v
                return LinearOperator((n, n), matvec=f, rmatvec=f, dtype=np.float64)
            if wrt is self.b:
                return 1

    class Alias(ch.Ch):
        """An input that can also be reached, and set, under a second name."""
        dterms = 'v', 'other'
        terms = 'g',
        term_order = 'g', 'v'

        @property
        def rt(self):
            return self.v

        @rt.setter
        def rt(self, value):
            self.v = value

        @ch.depends_on('v', 'g')
        def grown(self):
            ctl.hit(self, 'grown', None)
            return self.g * self.v.r

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            return self.grown * self.other.r

        def compute_dr_wrt(self, wrt):
            ctl.hit(self, 'compute_dr_wrt', None)
            J = None
            if wrt is self.v:
                J = sp.diags([(self.g * self.other.r).ravel()], [0], format='csc')
            if wrt is self.other:
                K = np.diag(self.grown.ravel())
                J = K if J is None else J + K
            return J

    class Pair(Alias):
        """The second name is an input of its own."""
        dterms = 'v', 'rt', 'other'

    class Result(ch.Ch):
        """A node that builds an inner expression and is what that expression is."""
        dterms = 'a', 'b', '_result'
        terms = 'gain',
        term_order = 'a', 'b', 'gain'

        def on_changed(self, which):
            ctl.hit(self, 'on_changed:enter', None)
            if not {'a', 'b', 'gain'}.isdisjoint(which):
                self._result = ch.sin(self.a) * self.gain + self.a * self.b
            ctl.hit(self, 'on_changed:exit', None)

        def compute_r(self):
            ctl.hit(self, 'compute_r', None)
            return self._result.r

        def compute_dr_wrt(self, wrt):
            if wrt is self._result:
                ctl.hit(self, 'compute_dr_wrt', None)
                return 1

    for c in (Base, Derived, Affine, Linop, Alias, Pair, Result):
        c.__module__ = 'sim_user'
        c.__qualname__ = c.__name__
        setattr(m, c.__name__, c)
    Flaky.__module__ = 'sim_user'
    Flaky.__qualname__ = 'Flaky'
    m.Flaky = Flaky
    Gauge.__module__ = 'sim_user'
    Gauge.__qualname__ = 'Gauge'
    m.Gauge = Gauge
    sys.modules['sim_user'] = m
    ch._sim_user = m
    return m
