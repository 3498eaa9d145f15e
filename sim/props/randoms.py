"""C13: random variables against a reference generator; nothing else may draw."""
import copy as pycopy
import pickle
import random

import numpy as np

from ..graph import Gen, Violation, Skip, apply_model
from ..seams import World
from .base import Prop, COMMON_REAL, COMMON_STUB, ASSUME
from .threads import TExec, TGen

SIZED = {'beta': (2., 3.), 'binomial': (9, .4), 'chisquare': (3.,), 'exponential': (1.5,), 'f': (3., 5.), 'gamma': (2., 1.5),
         'geometric': (.3,), 'gumbel': (.5, 2.), 'hypergeometric': (5, 6, 4), 'laplace': (0., 1.), 'logistic': (0., 1.),
         'lognormal': (0., .5), 'logseries': (.6,), 'negative_binomial': (3, .5), 'noncentral_chisquare': (3., 1.),
         'noncentral_f': (3., 5., 1.), 'normal': (1., 2.), 'pareto': (3.,), 'poisson': (2.5,), 'power': (2.,), 'rayleigh': (1.,),
         'standard_cauchy': (), 'standard_exponential': (), 'standard_gamma': (2.,), 'standard_normal': (), 'standard_t': (5.,),
         'triangular': (-1., .2, 2.), 'uniform': (-1., 2.), 'vonmises': (0., 1.), 'wald': (1., 2.), 'weibull': (2.,),
         'zipf': (3.,), 'randint': (1, 9), 'random_integers': (1, 9), 'random_sample': (), 'random': (), 'ranf': (), 'sample': ()}
BAD = [('normal', (0., -1.), {}), ('binomial', (-3, .5), {}), ('uniform', ('a', 2.), {}), ('rand', (-2,), {}), ('randint', (5, 2), {}),
       ('poisson', (-1.,), {}), ('normal', (0., 1.), {'size': -1}), ('dirichlet', ([-1., 2.],), {})]


def rargs(r):
    name = r.choice(sorted(SIZED) + ['rand', 'randn', 'dirichlet', 'multinomial', 'multivariate_normal'])
    sh = r.choice([[3], [2, 2], [2, 3], [1], [4]])
    if name in ('rand', 'randn'):
        return name, list(sh), {}
    if name == 'dirichlet':
        return name, [[1., 2., 3.]], {'size': 2}
    if name == 'multinomial':
        return name, [7, [.2, .3, .5]], {'size': 2}
    if name == 'multivariate_normal':
        return name, [[0., 1.], [[1., .2], [.2, 2.]]], {'size': 2}
    a = list(SIZED[name])
    if r.random() < .12:
        return name, a, {}
    return name, a, {'size': sh[0] if len(sh) == 1 else sh}


def numpy_call(lib, name, a, k):
    k = {n: tuple(v) if isinstance(v, list) else v for n, v in k.items()}
    if name in ('random', 'ranf', 'sample') and not hasattr(lib, name):
        name = 'random_sample'
    if name == 'random_integers' and not hasattr(lib, name):
        return lib.randint(a[0], a[1] + 1, **k)
    return getattr(lib, name)(*a, **k)


class RGen(TGen):
    def program(self):
        r, c = self.rng, self.cfg
        self.prog.append({'op': 'seed', 'n': r.randrange(1 << 31), 'via': r.choice(['ch', 'np'])})
        for _ in range(r.randint(1, 3)):
            self.draw()
        self.build()
        for _ in range(r.randint(*c['steps'])):
            x = r.random()
            if x < .22:
                self.draw()
            elif x < .32:
                n, a, k = rargs(r)
                self.prog.append({'op': 'npdraw', 'name': n, 'a': a, 'k': k})
            elif x < .36:
                self.prog.append({'op': 'seed', 'n': r.randrange(1 << 31), 'via': r.choice(['ch', 'np'])})
            elif x < .42:
                self.prog.append({'op': 'save', 'via': r.choice(['ch', 'np'])})
            elif x < .48:
                self.prog.append({'op': 'load', 'via': r.choice(['ch', 'np']), 'back': r.randint(1, 3), 'crash': r.random() < .5})
            elif x < .53:
                self.prog.append({'op': 'baddraw', 'i': r.randrange(len(BAD))})
            elif x < .58:
                self.tmin()
            elif x < .63:
                self.prog.append({'op': 'dup', 'id': r.choice(self.held), 'how': r.choice(['copy', 'deepcopy', 'pickle', 'str'])})
            elif x < .67:
                self.prog.append({'op': 'failread', 'id': r.choice(self.held), 'at': r.randint(1, 6), 'dr': r.choice(self.held)})
            elif x < .70:
                self.gc()
            else:
                self.step()
        self.prog.append({'op': 'sweep', 'dr': r.random() < .5, 'seed': r.randrange(1 << 30)})
        return self.prog

    def draw(self):
        """A drawn variable joins the graph if its values suit the rest of the program."""
        r = self.rng
        n, a, k = rargs(r)
        op = {'op': 'draw', 'id': self.new_id(), 'name': n, 'a': a, 'k': k}
        if r.random() < .5:
            # brought into a known range by an edit, so that later steps can use it
            op['then'] = self.data(self.shape())
            if apply_model(self.m, {'op': 'leaf', 'id': op['id'], 'data': op['then'], 'form': 'Ch'}):
                self.held.append(op['id'])
        self.prog.append(op)


class RExec(TExec):
    def __init__(self, *a):
        TExec.__init__(self, *a)
        self.ref = np.random.RandomState(0)
        self.ref.set_state(np.random.get_state())
        self.py = random.getstate()
        self.saved = []
        self.drawn = []          # (object, data) left alone since they were drawn

    def step(self, op):
        TExec.step(self, op)
        self.check_stream('after ' + op['op'])

    def check_stream(self, what):
        a, b = np.random.get_state(), self.ref.get_state()
        if not (a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            raise Violation('stream-moved', 'the generator is not where the requested draws leave it (%s)' % what)
        if random.getstate() != self.py:
            raise Violation('stream-moved', "Python's own generator was used (%s)" % what)
        for o, d in self.drawn:
            if not np.array_equal(np.asarray(o.r), d) or not np.array_equal(np.asarray(o.x), d):
                raise Violation('wrong-value', 'a drawn variable changed from %s to %s' % (d.tolist(), np.asarray(o.r).tolist()))
        self.stat('stream checks')

    def lib(self, op):
        return self.ch.random if op['via'] == 'ch' else np.random

    def x_seed(self, op):
        self.call('seed', self.lib(op).seed, op['n'])
        self.ref.seed(op['n'])

    def x_save(self, op):
        self.saved.append(self.call('get_state', self.lib(op).get_state))

    def x_load(self, op):
        if not self.saved:
            raise Skip()
        s = self.saved[-min(op['back'], len(self.saved))]
        if op['crash']:
            # a new process starts from its own seed; only the saved state survives
            s = pickle.loads(pickle.dumps(s))
            np.random.seed(self.k + 1000)
            self.stat('fault:restart')
        self.call('set_state', self.lib(op).set_state, s)
        self.ref.set_state(s)

    def x_npdraw(self, op):
        a = numpy_call(np.random, op['name'], op['a'], op['k'])
        b = numpy_call(self.ref, op['name'], op['a'], op['k'])
        if not np.array_equal(a, b):
            raise Violation('stream-moved', 'numpy.random.%s continued another stream' % op['name'])
        self.stat('numpy draws')

    def x_draw(self, op):
        exp = np.asarray(numpy_call(self.ref, op['name'], op['a'], op['k']), dtype=np.float64)
        o = self.call('random.%s' % op['name'], numpy_call, self.ch.random, op['name'], op['a'], op['k'])
        if type(o) is not self.ch.Ch:
            raise Violation('wrong-value', 'random.%s did not give a variable' % op['name'])
        got = np.asarray(o.x)
        self.stat('draws')
        if got.dtype != np.float64 or got.shape != exp.shape or not np.array_equal(got, exp):
            raise Violation('wrong-value', 'random.%s%s gave %s, the generator says %s' % (op['name'], tuple(op['a']), got.tolist(), exp.tolist()))
        if not np.array_equal(np.ravel(o.r), exp.ravel()):
            raise Violation('wrong-value', 'a drawn variable reads %s, drawn %s' % (np.asarray(o.r).tolist(), exp.tolist()))
        if 'then' in op:
            o.x = np.array(op['then'])
            if apply_model(self.m, {'op': 'leaf', 'id': op['id'], 'data': op['then'], 'form': 'Ch'}):
                o.__dict__['tag'] = op['id']
                self.obj[op['id']] = o
        elif exp.ndim:
            self.drawn.append((o, exp))

    def x_baddraw(self, op):
        n, a, k = BAD[op['i']]
        e1 = e2 = None
        try:
            numpy_call(self.ref, n, a, k)
        except Exception as e:
            e1 = e
        try:
            numpy_call(self.ch.random, n, a, k)
        except Exception as e:
            e2 = e
        if (e1 is None) != (e2 is None):
            raise Violation('wrong-value', 'random.%s%s: %r instead of %r' % (n, a, e2, e1))
        self.stat('fault:rejected draw')

    def x_dup(self, op):
        self.need(op['id'])
        o = self.obj[op['id']]
        if any(self.m.n[k].kind == 'fresh' for k in self.m.below(op['id'])):
            raise Skip()
        if op['how'] == 'copy':
            self.call('copy', self.ch.copy, o)
        elif op['how'] == 'deepcopy':
            self.call('deepcopy', pycopy.deepcopy, o)
        elif op['how'] == 'pickle':
            self.call('pickle', lambda: pickle.loads(pickle.dumps(o, 2)))
        else:
            self.call('str', str, o)

    def x_failread(self, op):
        self.need(op['id'], op['dr'])
        ctl = self.W.user.ctl
        ctl.arm(op['at'])
        try:
            self.obj[op['id']].r
            self.obj[op['id']].dr_wrt(self.obj[op['dr']])
        except Exception:
            pass
        finally:
            ctl.off()
        if ctl.fired:
            self.stat('fault:failed read')


class C13(Prop):
    id = 'C13'
    quick = (1440, 95.0)
    thorough = (40000, 1500.0)
    real = COMMON_REAL + ["NumPy's global generator"]
    stub = COMMON_STUB + ['seed and restart of the process (the generator\'s state is set by the simulator; only a saved state survives)']
    assumptions = ASSUME + ['The reference is a second numpy.random.RandomState given the same requests.']
    rule = 'runs with at least two draws around other operations, counted once per distinct program'

    def generate(self, rng, seed, tier):
        cfg = dict(leaves=(1, 2), nodes=(1, 6), steps=(8, 24), grow=.2, drop=.05, dr=.4, probe=1.5)
        return {'seed': seed, 'prog': RGen(rng, cfg).program()}

    def run(self, case):
        keep, py = np.random.get_state(), random.getstate()
        np.random.seed(case['seed'] % (1 << 31))
        try:
            with World(case['seed']) as w:
                e = RExec(w, case['prog'])
                try:
                    e.run()
                except Violation as v:
                    if v.cls in ('stream-moved',) or 'draw' in v.detail or 'random.' in v.detail or 'state' in v.detail or 'seed' in v.detail:
                        raise
                    return dict(e.stats, unusable=1)     # decided by other properties
                return e.stats
        finally:
            np.random.set_state(keep)
            random.setstate(py)

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('name'), o.get('how'), o.get('method')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('draws', 0) > 1 and st.get('stream checks', 0) > 4
