"""C06, C07: dogleg minimizations with wrong, failing and non-finite linear solves and
evaluations."""
import numpy as np

from ..graph import Violation, close
from ..kinds import room
from ..opt import OptExec, OptGen
from .base import GraphProp


class OptProp(GraphProp):
    big = .08
    executor = OptExec
    gen = OptGen
    rule = 'runs in which at least one minimization accepted a step, counted once per distinct program'
    stub = GraphProp.stub + ['linear solver (simulated answers: right, scaled, reversed, random, zero, huge, tiny, NaN, Inf)',
                             'objective evaluations (scheduled NaN, Inf, huge)']

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(2, 9))
        if rng.random() < self.big:
            cfg.update(big=True, leaves=(1, 2), nodes=(1, 3))
            with room(72):
                return {'seed': seed, 'prog': self.gen(rng, cfg).program(), 'setorder': False, 'ids': rng.random() < .3, 'room': 72}
        return {'seed': seed, 'prog': self.gen(rng, cfg).program(), 'setorder': rng.random() < .3, 'ids': rng.random() < .3}

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('form'), o.get('api'), o.get('solver'), sorted(o.get('bad', {}).items()),
                 sorted((o.get('opt') or {}).items()), o.get('answers'), len(o.get('free', []))] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('improved', 0) > 0


class C06(OptProp):
    id = 'C06'
    quick = (1440, 95.0)


class StopGen(OptGen):
    """Half of the minimizations are well-conditioned data fits whose disturbances stop."""

    def fit(self):
        r = self.rng
        leaves = [i for i in self.held if self.m.isleaf(i)]
        res = []
        for leaf in r.sample(leaves, min(len(leaves), r.choice([1, 1, 2]))):
            a = leaf
            n = self.m.vals[leaf].size
            form = r.choice(['lin', 'mat', 'soft', 'cum'])
            if form == 'mat' and self.m.vals[leaf].ndim == 1:
                M = (np.eye(n) * 2 + r.uniform(0, .5) * np.array([r.uniform(-1, 1) for _ in range(n * n)]).reshape((n, n))).round(3).tolist()
                i, j = self.new_id(), None
                if self.emit({'op': 'leaf', 'id': i, 'data': M, 'form': 'Ch'}):
                    j = self.new_id()
                    if self.emit({'op': 'node', 'id': j, 'kind': 'dot', 'o': {'f': 0}, 'ins': {'a': i, 'b': leaf}}):
                        a = j
            elif form == 'soft':
                i = self.new_id()
                if self.emit({'op': 'node', 'id': i, 'kind': 'arctan', 'o': {'f': 0}, 'ins': {'x': leaf}}):
                    j = self.new_id()
                    if self.emit({'op': 'node', 'id': j, 'kind': 'add', 'o': {'f': 0}, 'ins': {'a': i, 'b': leaf}}):
                        a = j
            elif form == 'cum':
                i = self.new_id()
                if self.emit({'op': 'node', 'id': i, 'kind': 'cumsum', 'o': {'axis': None, 'f': 0}, 'ins': {'a': leaf}}):
                    a = i
            j = self.new_id()
            if not self.emit({'op': 'node', 'id': j, 'kind': 'subtract', 'o': {'f': 0}, 'ins': {'a': a, 'b': {'c': self.data(list(self.m.vals[a].shape))}}}):
                continue
            k = self.new_id()
            if self.emit({'op': 'node', 'id': k, 'kind': 'flaky', 'o': {'f': 0}, 'ins': {'x': j}}):
                self.held += [j, k]
                res.append(k)
        if not res:
            return False
        fr = self.free(res)
        if not fr:
            return False
        w = self.world(fr)
        w['answers'] = [r.choice(['ok', 'scaled', 'neg', 'random', 'nan', 'inf', 'huge', 'singular', 'part', 'part', 'partinf']) for _ in range(r.randint(0, 6))]
        w['bad'] = {str(r.randint(2, 12)): r.choice(['nan', 'nan1', 'inf', '-inf', 'big', 'huge']) for _ in range(r.randint(0, 6))}
        w['solver'] = r.choices(['spsolve', 'ok', 'bad'], [2, 1, 4])[0]
        o = {'maxiter': 400, 'disp': r.random() < .3}
        if r.random() < .5:
            o['delta_0'] = r.choice([1e-2, .1, 1., 10., 1e3, 1e6, 1e300])
        if r.random() < .5:
            o['treat_as_dense'] = True
        self.prog.append({'op': 'min', 'res': res, 'form': r.choice(['list', 'dict', 'single', 'tuple']), 'free': fr,
                          'opt': o, 'api': r.choice(['ch', 'method', 'internal']), 'settle': True, **w})
        return True

    def add_min(self):
        if self.rng.random() < .55:
            return self.fit()
        return OptGen.add_min(self)

    def world(self, fr):
        w = OptGen.world(self, fr)
        r = self.rng
        if r.random() < .5:
            # long stretches of bad evaluations
            a = r.randint(2, 10)
            k = r.choice(['nan', 'nan1', 'inf', 'huge'])
            w['bad'] = {str(i): k for i in range(a, a + r.choice([3, 10, 40, 2000]))}
        return w


class StopExec(OptExec):
    def finish(self, op, d0, hist, err):
        self.stat('minimizations that ended')
        if op.get('settle') and err is None:
            p = self.point()
            A = self.jac(op)
            r = self.resid(op)
            if A is not None:
                c = np.linalg.cond(A)
                if c < 100:
                    # distance to the minimum, for a problem with this conditioning
                    step = np.linalg.lstsq(A, r, rcond=None)[0]
                    if not np.linalg.norm(step) <= 1e-4 * (1 + np.linalg.norm(p)) and not self.bad_minimum(step):
                        raise Violation('no-progress', 'the minimization ended at %s after %d accepted steps, at a distance of about %.3g from the minimum' % (
                            np.round(p, 6).tolist(), len(hist) - 1, np.linalg.norm(step)))
                    self.stat('reached the minimum')
        OptExec.finish(self, op, d0, hist, err)

    def bad_minimum(self, step):
        """the minimum itself is among the points where an evaluation goes wrong"""
        ctl = self.W.user.ctl
        for i in {t for t, _ in ctl.points}:
            pos, v = 0, self.m.vals[i].ravel().copy()
            for _, l, idx in self.fr:
                v -= self.m.deriv(i, l)[:, idx].dot(step[pos:pos + idx.size])
                pos += idx.size
            for (tag, key), b in ctl.points.items():
                if tag == i and b and close(np.frombuffer(key), v, 1e-6):
                    self.stat('minimum out of reach')
                    return True
        return False

    def jac(self, op):
        self.m.force(self.leaf_data())
        if any(self.m.vals[i] is None for i in op['res']):
            return None
        return np.vstack([np.hstack([self.m.deriv(i, l)[:, idx] for _, l, idx in self.fr]) for i in op['res']])

    def resid(self, op):
        return np.concatenate([self.m.vals[i].ravel() for i in op['res'] if self.m.vals[i] is not None] or [np.zeros(0)])


class C07(OptProp):
    id = 'C07'
    quick = (1440, 95.0)
    executor = StopExec
    gen = StopGen
    rule = 'runs in which at least one minimization was disturbed, counted once per distinct program'

    def nontrivial(self, case, st):
        return any(k.startswith('fault:') for k in st)
