"""C09: the functions handed to scipy's minimizers, under request sequences of a
simulated solver and of the real ones."""
import warnings

import numpy as np
import scipy.optimize
import scipy.sparse as sp

from ..graph import Skip, Violation, close
from ..opt import METHODS, GaveUp, OptExec, OptGen, Requests, Seam, real_drive
from .base import GraphProp

KINDSREQ = ['fun', 'jac', 'hess', 'hessp']


class SolverGen(OptGen):
    def add_min(self):
        r = self.rng
        leaves = [i for i in self.held if self.m.isleaf(i)]
        res = []
        for leaf in r.sample(leaves, min(len(leaves), r.choice([1, 1, 2]))):
            k = self.residual(leaf)
            if k:
                res.append(k)
        extra = [i for i in self.held if not self.m.isleaf(i) and i not in res and
                 any(self.m.isleaf(j) and not self.m.n[j].const for j in self.m.below(i))]
        if extra and r.random() < .6:
            res.append(r.choice(extra[-6:]))
        scal = [i for i in extra if self.m.vals[i].size == 1]
        if scal and r.random() < .25:
            res = [r.choice(scal)]
        if not res:
            return False
        fr = self.free(res)
        if not fr:
            return False
        op = {'op': 'scipy', 'res': res, 'form': r.choice(['list', 'dict', 'single', 'tuple']), 'free': fr,
              'method': r.choice(METHODS), 'callback': r.random() < .3, 'api': r.choice(['ch', 'method'])}
        if r.random() < .3:
            op['real'] = r.choice([1, 2, 4])
        else:
            op['npoints'] = r.randint(2, 5)
            op['pseed'] = r.randrange(1 << 30)
            op['reqs'] = [[r.choice(KINDSREQ), r.randrange(op['npoints']),
                           r.choice(['fresh', 'buffer', 'buffer', 'strided', 'odd'])] for _ in range(r.randint(3, 25))]
            op['end'] = r.randrange(op['npoints'])
            if r.random() < .3:
                op['look'] = True
        self.prog.append(op)
        return True


class SolverExec(OptExec):
    def x_scipy(self, op):
        self.fr = self.parts(op)
        if not self.fr or not self.usable(op):
            raise Skip()
        self.op = op
        d0 = self.leaf_data()
        p0 = self.point()
        rq = Requests(self, real_drive if 'real' in op else self.drive)
        fvs = [p[0] for p in self.fr]
        objective = self.objective(op)
        kw = dict(method=op['method'], options={'maxiter': op['real']} if 'real' in op else {})
        if op['method'] in ('COBYLA', 'TNC', 'Nelder-Mead', 'Powell') and 'real' in op:
            kw['options'] = {'maxiter': 10 * op['real']} if op['method'] != 'TNC' else {'maxfun': 10 * op['real']}
        if op['callback']:
            def seen(*a):
                self.fixed_ok(d0)
                self.consistent(op['res'], 'in the callback')
            kw['callback'] = seen
        self.size1 = sum(self.m.vals[i].size for i in op['res']) == 1
        if self.size1 and op['method'] in ('trust-ncg', 'trust-krylov') and 'real' in op:
            raise Skip()      # these need a Hessian, which a single-number objective does not offer
        if len(op['res']) > 1 or op['form'] != 'single' or op['api'] != 'method':
            call = lambda: self.ch.minimize(objective, fvs, **kw)
        else:
            call = lambda: objective.minimize(fvs, **kw)
        Seam.handler = rq
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    self.call('minimizing with %s' % op['method'], self.unless_it_gives_up, call)
        finally:
            Seam.handler = None
        if rq.start is None:
            raise Skip()
        if not np.array_equal(rq.start, p0):
            raise Violation('wrong-start', 'the solver was started at %s, the free variables hold %s' % (rq.start.tolist(), p0.tolist()))
        self.stat('solver runs')
        self.stat('method %s' % op['method'])
        if rq.result is None:
            self.stat('solver gave up')
            x = None
        else:
            x = np.asarray(rq.result.x, dtype=np.float64).ravel()
        p = self.point()
        if x is not None and not np.array_equal(p, x, equal_nan=True):
            raise Violation('not-the-answer', 'the free variables hold %s, the solver answered %s' % (p.tolist(), x.tolist()))
        self.fixed_ok(d0)
        if not np.all(np.isfinite(p)):
            for i, d in d0.items():
                self.call('setx', setattr, self.tagged()[i], 'x', d.copy())
        self.finish(op, d0, [], None)

    @staticmethod
    def unless_it_gives_up(call):
        try:
            call()
        except GaveUp:
            pass

    # ---- the simulated solver
    def drive(self, fs, x0, args, method, kw):
        op = self.op
        rng = np.random.RandomState(op['pseed'] % (1 << 31))
        pts = [x0.copy()]
        for k in range(1, op['npoints']):
            q = pts[rng.randint(len(pts))].copy()
            how = rng.randint(4)
            if how == 0:
                q += rng.uniform(-.15, .15, q.shape)
            elif how == 1:
                q[rng.randint(q.size)] += rng.uniform(-.2, .2)
            elif how == 2:
                q = q + rng.uniform(-1, 1, q.shape) * 1e-6
            else:
                q = q * rng.uniform(.9, 1.1)
            pts.append(q)
        buf = x0.copy()
        wide = np.zeros(2 * x0.size)
        for kind, k, how in op['reqs']:
            f = fs[kind]
            if f is None:
                continue
            pt = pts[k]
            if how == 'buffer':
                buf[:] = pt
                v = buf
            elif how == 'strided':
                wide[::2] = pt
                v = wide[::2]
            elif how == 'odd' and self.op.get('oddpoints', True):
                # a point outside the domain, as a failed line search produces
                v = pt.copy()
                v[rng.randint(v.size)] = [np.nan, np.inf][rng.randint(2)]
                self.stat('fault:non-finite point')
            else:
                v = pt.copy()
            keep = v.copy()
            if kind == 'hessp':
                f(v, rng.uniform(-1, 1, x0.size), *args)
            else:
                f(v, *args)
            if not np.array_equal(keep, v, equal_nan=True):
                raise Violation('point-overwritten', "the solver's array was changed by a request for %s" % kind)
            if how == 'fresh':
                v[:] = 7e7     # the solver is free to reuse its memory
                self.stat('fault:point overwritten')
            if self.op.get('look'):
                self.consistent(self.op['res'], 'between requests')
        return scipy.optimize.OptimizeResult(x=pts[op['end']].copy(), success=True)

    # ---- judging one answer
    def answered(self, kind, at, p, ans):
        self.stat('request %s' % kind)
        keep = self.m.n, self.m.vals, self.m.jc
        if not np.all(np.isfinite(at)):
            # only what any function of the point has in common: it may not answer for a finite point
            if kind == 'fun' and getattr(self, 'last', None) is not None:
                a = float(np.asarray(ans).ravel()[0])
                if np.isfinite(a) and a == self.last[1] and self.depends_on_bad(at):
                    raise Violation('wrong-answer', 'asked for the objective at %s, answered %r as for the point before' % (at.tolist(), a))
            return
        leaves = self.leaf_data()
        pos = 0
        for _, l, idx in self.fr:
            a = leaves[l]
            a.ravel()[idx] = at[pos:pos + idx.size]
            pos += idx.size
        self.m.n, self.m.vals = dict(self.m.n), dict(self.m.vals)
        try:
            self.m.force(leaves)
            if any(self.m.vals[i] is None for i in self.op['res']):
                self.stat('outside the model')
                return
            r = np.concatenate([self.m.vals[i].ravel() for i in self.op['res']])
            exp = None
            if kind == 'fun':
                exp = r[0] if self.size1 else np.sum(r ** 2)
                self.last = at, float(exp)
            else:
                J = np.vstack([np.hstack([self.m.deriv(i, l)[:, idx] for _, l, idx in self.fr]) for i in self.op['res']])
                if kind == 'jac':
                    exp = J.ravel() if self.size1 else 2 * J.T.dot(r)
                elif kind == 'hess':
                    exp = 2 * J.T.dot(J)
                else:
                    exp = 2 * J.T.dot(J.dot(p))
        finally:
            self.m.n, self.m.vals, self.m.jc = keep
        got = ans.toarray() if sp.issparse(ans) else np.asarray(ans)
        self.stat('answers')
        if got.size != np.size(exp) or not close(np.ravel(got), np.ravel(exp), 1e-6):
            raise Violation('wrong-answer', 'asked for %s at %s, answered %s, should be %s' % (
                kind, at.tolist(), np.round(np.ravel(got), 6).tolist(), np.round(np.ravel(exp), 6).tolist()))

    def depends_on_bad(self, at):
        """the first residual block is an unconditional function of a non-finite element"""
        if any(v is None for v in self.m.vals.values()):
            return False
        pos = 0
        for _, l, idx in self.fr:
            for k in range(idx.size):
                if not np.isfinite(at[pos + k]):
                    tot = sum(np.abs(self.m.deriv(i, l)[:, idx[k]]).sum() for i in self.op['res'] if l in self.m.below(i))
                    if tot > 0:
                        return True
            pos += idx.size
        return False


class C09(GraphProp):
    id = 'C09'
    quick = (1920, 95.0)
    executor = SolverExec
    rule = 'runs in which at least one solver request was judged, counted once per distinct program'
    stub = GraphProp.stub + ['solver (simulated request sequences for most runs; the real scipy solvers for the rest)']

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(2, 9))
        return {'seed': seed, 'prog': SolverGen(rng, cfg).program(), 'setorder': rng.random() < .3, 'ids': rng.random() < .3}

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('form'), o.get('method'), o.get('reqs'), o.get('real'), len(o.get('free', []))] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('answers', 0) > 0
