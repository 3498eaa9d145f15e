"""C11: threads working on graphs of their own, suspended anywhere."""
import random

import numpy as np

from ..driver import h
from ..graph import Gen, Violation, Skip
from ..opt import OptExec, OptGen
from ..sched import Sched, Locks
from ..seams import World
from .base import Prop, COMMON_REAL, COMMON_STUB, ASSUME


class TGen(OptGen):
    def __init__(self, rng, cfg, kinds=None, shapes=None):
        self.shapes = shapes
        Gen.__init__(self, rng, cfg)
        if kinds:
            ks = [(k, w) for k, w in zip(self.kinds, self.w) if k.name in kinds]
            if ks:
                self.kinds, self.w = [k for k, _ in ks], [w for _, w in ks]

    def shape(self):
        if self.shapes and self.rng.random() < .85:
            return list(self.rng.choice(self.shapes))
        return Gen.shape(self)

    def tmin(self):
        n = len(self.prog)
        if not self.add_min():
            return False
        r = self.rng
        op = self.prog.pop()
        o = {'op': 'tmin', 'res': op['res'], 'form': op['form'], 'free': op['free'],
             'method': r.choice(['dogleg', 'dogleg', 'BFGS', 'CG', 'Newton-CG']),
             'opt': {'maxiter': r.choice([1, 2, 3, 5]), 'disp': r.random() < .3}, 'solver': r.choice(['spsolve', 'cg'])}
        if r.random() < .4:
            o['opt']['treat_as_dense'] = True
        self.prog.append(o)
        return True

    def program(self, mins=True):
        r, c = self.rng, self.cfg
        self.build()
        for _ in range(r.randint(*c['steps'])):
            self.step()
            if r.random() < .04:
                self.gc()
        if mins and r.random() < .25:
            self.tmin()
            self.step()
            self.step()
        self.prog.append({'op': 'sweep', 'dr': r.random() < .5, 'seed': r.randrange(1 << 30)})
        return self.prog


class Abandon(Exception):
    """the model has no value for the rest of the program"""


class TExec(OptExec):
    def __init__(self, *a):
        OptExec.__init__(self, *a)
        self.results = []

    def run(self):
        try:
            return OptExec.run(self)
        except Abandon:
            self.stat('abandoned')
            return self.stats

    def x_tmin(self, op):
        self.fr = self.parts(op)
        if not self.fr or not self.usable(op):
            raise Skip()
        d0 = self.leaf_data()
        o = dict(op['opt'])
        if op['method'] == 'dogleg':
            o['sparse_solver'] = op['solver']
        else:
            o.pop('treat_as_dense', None)
            o['disp'] = False
        pts = []

        def on_step(*a):
            pts.append(self.point())
        self.call('minimize (%s)' % op['method'], self.ch.minimize, self.objective(op), x0=[p[0] for p in self.fr],
                  method=op['method'], callback=on_step, options=o)
        self.stat('minimizations')
        self.fixed_ok(d0)
        pts.append(self.point())
        self.results.append((self.k, op['method'], pts))
        self.consistent([i for i in op['res']], 'after minimizing')
        # back to the values the program was generated for
        objs = self.tagged()
        for i, d in d0.items():
            if i in objs and not np.array_equal(np.atleast_1d(objs[i].x), d):
                self.call('setx', setattr, objs[i], 'x', d.copy())
        self.m.force(d0)
        if any(self.m.vals.get(i) is None for i in self.m.n):
            raise Abandon()


def vary(v, rng):
    """the same program with other numbers"""
    if isinstance(v, list):
        return [vary(x, rng) for x in v]
    if isinstance(v, float):
        return round(v * (1 + rng.choice([.03, .07, .11, -.05])), 4)
    return v


def varied(prog, rng):
    out = []
    for o in prog:
        o = dict(o)
        for k in ('data', 'value'):
            if k in o:
                o[k] = vary(o[k], rng)
        if 'ins' in o:
            o['ins'] = {s: ({'c': vary(x['c'], rng)} if isinstance(x, dict) else x) for s, x in o['ins'].items()}
        out.append(o)
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True):
            return False
    return True


class C11(Prop):
    id = 'C11'
    quick = (1000, 220.0)
    thorough = (30000, 1500.0)
    real = COMMON_REAL + ['operating-system threads (one runs at a time)']
    stub = COMMON_STUB + ['thread scheduler (seeded; suspends at any line of the library or of a user-defined node)',
                          'locks created by the library (waiting is a scheduling decision)']
    assumptions = ASSUME + ['A thread is suspended between lines of Python, not within a line or within NumPy/SciPy.']
    rule = 'runs with at least two switches away from an unfinished thread, counted once per distinct (programs, schedule)'
    sigrule = 'sha256 of the programs\' step and operation kinds and of the schedule actually taken'

    def generate(self, rng, seed, tier):
        from ..kinds import KINDS
        cfg = dict(leaves=(1, 3), nodes=(1, 5), steps=(1, 8), grow=.2, drop=.05, dr=.4)
        n = 2 if rng.random() < .8 else 3
        how = rng.choice(['same', 'same', 'kindred', 'kindred', 'free'])
        kinds = shapes = None
        if how == 'kindred':
            kinds = rng.sample(sorted(KINDS), rng.randint(2, 6))
            g = Gen(rng, {})
            shapes = [g.shape() for _ in range(rng.randint(1, 2))]
        progs = []
        for i in range(n):
            if how == 'same' and progs:
                progs.append(progs[0] if rng.random() < .25 else varied(progs[0], rng))
            else:
                progs.append(TGen(random.Random(rng.randrange(1 << 40)), cfg, kinds, shapes).program())
        return {'seed': seed, 'progs': progs, 'mode': rng.choice(['fine', 'fine', 'medium', 'coarse', 'early', 'early', 'rare']),
                'segments': None}

    def solo(self, case):
        out = []
        memo = {}
        for p in case['progs']:
            if not any(o['op'] == 'tmin' for o in p):
                out.append(None)
                continue
            k = h(p)
            if k not in memo:
                with World(case['seed']) as w:
                    ex = TExec(w, p)
                    try:
                        ex.run()
                        memo[k] = ex.results
                    except Violation:
                        memo[k] = 'fails'       # decided by other properties
            out.append(memo[k])
        return out

    def run(self, case):
        alone = self.solo(case)
        if 'fails' in alone:
            return {'unusable': 1}
        with Locks():
            with World(case['seed']) as w:
                exs = [TExec(w, p) for p in case['progs']]
                s = Sched([e.run for e in exs], case['seed'], case['mode'], case['segments'])
                s.run()
        v = None
        if s.deadlock:
            v = Violation('deadlock', 'all threads wait for a lock')
        for t in s.ts:
            if v is None and isinstance(t.err, Violation):
                v = Violation(t.err.cls, 'thread %d: %s' % (t.i, t.err.detail))
        for t in s.ts:
            if v is None and t.err is not None:
                raise t.err
        for e, a, t in zip(exs, alone, s.ts):
            if v is None and a is not None:
                for (k, meth, p), (k2, _, q) in zip(e.results, a):
                    if k != k2 or not same(p, q):
                        v = Violation('different-result', 'thread %d: minimization with %s at step %d ended at %s, alone at %s' % (
                            t.i, meth, k, np.round(p[-1], 6).tolist(), np.round(q[-1], 6).tolist()))
                        break
        if v is not None:
            # a violation that also happens without other threads is not one of this property
            if case['segments'] is None or s.switches:
                if self.fails_alone(case):
                    return {'unusable': 1}
            v.case = dict(case, segments=s.taken)
            raise v
        st = {}
        for e in exs:
            for k, n in e.stats.items():
                st[k] = st.get(k, 0) + n
        st['fault:thread suspended'] = s.switches
        st['lines'] = s.total
        st['_taken'] = s.taken
        st['suspension places'] = len(s.places)
        return st

    def fails_alone(self, case):
        for p in case['progs']:
            with World(case['seed']) as w:
                try:
                    TExec(w, p).run()
                except Violation:
                    return True
        return False

    def sample(self, case):
        return dict(case, progs=[p[:6] + ['... %d more' % max(0, len(p) - 6)] for p in case['progs']])

    def size(self, case):
        return sum(len(p) for p in case['progs']) + len(case['segments'] or [])

    def signature(self, case, st):
        return [[[[o['op'], o.get('kind')] for o in p] for p in case['progs']], st.get('_taken')]

    def nontrivial(self, case, st):
        return st.get('fault:thread suspended', 0) > 1

    def smaller(self, case):
        seg = case['segments']
        if seg is not None and len(seg) > 12:
            for k in range(1, 9):
                yield dict(case, segments=None, mode='rare' if k < 6 else 'coarse', seed=case['seed'] + k)
        if seg is not None:
            n = len(seg)
            size = max(1, n // 2)
            while n and size >= 1:
                for i in range(n - size, -1, -size):
                    c = dict(case)
                    rest = seg[:i] + seg[i + size:]
                    m = []
                    for t, k in rest:
                        if m and m[-1][0] == t:
                            m[-1] = [t, m[-1][1] + k]
                        else:
                            m.append([t, k])
                    c['segments'] = m
                    yield c
                size //= 2
        for j, p in enumerate(case['progs']):
            n = len(p)
            size = max(1, n // 2)
            while size >= 1:
                for i in range(n - size, -1, -size):
                    q = p[:i] + p[i + size:]
                    if not q:
                        continue
                    c = dict(case)
                    c['progs'] = [q if k == j else x for k, x in enumerate(case['progs'])]
                    yield c
                    c = dict(c, segments=None, mode='fine')
                    yield c
                size //= 2
        if len(case['progs']) > 2:
            for j in range(len(case['progs'])):
                yield dict(case, progs=case['progs'][:j] + case['progs'][j + 1:], segments=None)
