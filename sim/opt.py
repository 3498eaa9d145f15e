"""Minimization problems: generation, and execution with everything around the
minimizer (linear solver, evaluations, callback, progress output) under control."""
import io
import sys
import warnings

import numpy as np

from .graph import Exec, Gen, Violation, Skip, close, arr, idx_of, dec_key
from .kinds import KINDS, rand_key, rnd
from .user import Runaway, point_key

SMOOTH = ['negative', 'sin', 'cos', 'square', 'arctan', 'exp', 'add', 'subtract', 'multiply', 'dot', 'sum', 'mean',
          'SumOfSquares', 'cumsum', 'transpose', 'reshape', 'select', 'squeeze', 'concat2', 'concat3', 'vstack', 'probe',
          'wrap', 'gauge', 'alias', 'pair', 'result', 'flaky', 'MatVecMult', 'lambda', 'repeat', 'tile', 'cross']
SMOOTH = [k for k in SMOOTH if k in KINDS]


class OptGen(Gen):
    def __init__(self, rng, cfg=None):
        c = dict(kinds=SMOOTH, leaves=(1, 3), nodes=(1, 5), steps=(0, 4), resize=.03, gc=.2, drop=.02, dr=.2)
        c.update(cfg or {})
        Gen.__init__(self, rng, c)

    # a simple data-fitting part keeps most problems interesting
    def residual(self, leaf):
        r = self.rng
        sh = list(self.m.vals[leaf].shape)
        target = {'c': self.data(sh)}
        a = leaf
        form = r.choice(['lin', 'lin', 'sq', 'sin', 'exp', 'mat', 'hinge'])
        if form == 'mat' and len(sh) == 1 and 'dot' in KINDS:
            n = sh[0]
            M = (np.eye(n) * 2 + np.array(rnd(r, n * n, -.6, .6)).reshape((n, n))).round(3).tolist()
            i = self.new_id()
            if self.emit({'op': 'leaf', 'id': i, 'data': M, 'form': 'Ch'}):
                self.held.append(i)
                j = self.new_id()
                if self.emit({'op': 'node', 'id': j, 'kind': 'dot', 'o': {'f': 0}, 'ins': {'a': i, 'b': leaf}}):
                    self.held.append(j)
                    a = j
        elif form in ('sq', 'sin', 'exp'):
            j = self.new_id()
            if self.emit({'op': 'node', 'id': j, 'kind': {'sq': 'square', 'sin': 'sin', 'exp': 'exp'}[form], 'o': {'f': 0}, 'ins': {'x': leaf}}):
                self.held.append(j)
                a = j
        sh = list(self.m.vals[a].shape)
        j = self.new_id()
        if not self.emit({'op': 'node', 'id': j, 'kind': 'subtract', 'o': {'f': 0}, 'ins': {'a': a, 'b': {'c': self.data(sh)}}}):
            return None
        self.held.append(j)
        if form == 'hinge':
            # no pull at all once it is satisfied
            i = self.new_id()
            if self.emit({'op': 'node', 'id': i, 'kind': r.choice(['maximum', 'minimum']), 'o': {'f': 0},
                          'ins': {'a': j, 'b': {'c': (np.zeros(sh) + r.choice([0., 0., .5, -.5])).tolist()}}}):
                self.held.append(i)
                j = i
        k = self.new_id()
        if self.emit({'op': 'node', 'id': k, 'kind': 'flaky', 'o': {'f': 0}, 'ins': {'x': j}}):
            self.held.append(k)
            return k
        return j

    def options(self):
        r = self.rng
        o = {'maxiter': r.choice([1, 2, 3, 5, 10, 30]), 'disp': r.random() < .5}
        if r.random() < .3:
            o['max_fevals'] = r.choice([2, 3, 5, 10, 25])
        if r.random() < .3:
            o['e_1'] = r.choice([1e-15, 1e-8, 1e-3, 0.])
        if r.random() < .3:
            o['e_2'] = r.choice([1e-15, 1e-8, 1e-3])
        if r.random() < .25:
            o['e_3'] = r.choice([1e-3, .1, .5])
        if r.random() < .6:
            o['delta_0'] = r.choice([1e-4, .1, 1., 10., 1e3, 1e6, 1e300])
        if r.random() < .35:
            o['treat_as_dense'] = True
        return o

    def free(self, res):
        """disjoint free parts of variables the residuals depend on"""
        r = self.rng
        below = set()
        for i in res:
            below |= self.m.below(i)
        leaves = [i for i in self.held if self.m.isleaf(i) and i in below]
        r.shuffle(leaves)
        out = []
        for leaf in leaves[:r.randint(1, 3)]:
            sh = list(self.m.vals[leaf].shape)
            n = int(np.prod(sh))
            if n == 1 or r.random() < .5:
                out.append({'leaf': leaf, 'keys': []})
                continue
            taken = set()
            for _ in range(r.choice([1, 2, 2, 3])):
                keys, cur = [], np.arange(n).reshape(sh)
                for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                    if cur.size < 2 and keys:
                        break
                    k = rand_key(r, list(cur.shape))
                    try:
                        nxt = cur[dec_key(k)]
                    except Exception:
                        continue
                    if np.size(nxt) == 0:
                        continue
                    keys.append(k)
                    cur = np.atleast_1d(nxt)
                el = np.ravel(cur).tolist()
                if not keys or len(set(el)) != len(el) or taken & set(el):
                    continue
                taken |= set(el)
                out.append({'leaf': leaf, 'keys': keys})
            # a slice that is itself part of the graph
            if r.random() < .5:
                for s in self.held:
                    if self.m.n[s].kind == 'select' and self.m.n[s].ins['a'] == leaf:
                        el = self.m.n[s].o['idxs']
                        if len(set(el)) == len(el) and not taken & set(el):
                            taken |= set(el)
                            out.append({'node': s, 'leaf': leaf, 'idxs': el})
        r.shuffle(out)
        return out

    def add_min(self):
        r = self.rng
        leaves = [i for i in self.held if self.m.isleaf(i)]
        res = []
        for leaf in r.sample(leaves, min(len(leaves), r.choice([1, 1, 2]))):
            k = self.residual(leaf)
            if k:
                res.append(k)
        extra = [i for i in self.held if not self.m.isleaf(i) and i not in res and
                 any(self.m.isleaf(j) and not self.m.n[j].const for j in self.m.below(i))]
        if extra and r.random() < .6:
            res.append(r.choice(extra[-5:]))
        if not res:
            return False
        fr = self.free(res)
        if not fr:
            return False
        self.prog.append({'op': 'min', 'res': res, 'form': r.choice(['list', 'dict', 'single', 'tuple']), 'free': fr,
                          'opt': self.options(), 'api': r.choice(['ch', 'method', 'internal']), **self.world(fr)})
        return True

    def world(self, fr):
        """what happens around the minimizer"""
        r = self.rng
        w = {'solver': r.choices(['spsolve', 'cg', 'ok', 'bad'], [4, 1, 2, 4])[0],
             'answers': [r.choice(['ok', 'ok', 'scaled', 'neg', 'random', 'nan', 'inf', 'zero', 'huge', 'tiny', 'singular', 'part', 'partinf', 'vast']) for _ in range(40)],
             'seed': r.randrange(1 << 30), 'bad': {}, 'dense': r.random() < .3}
        if r.random() < .4:
            for _ in range(r.randint(1, 6)):
                w['bad'][str(r.randint(2, 30))] = r.choice(['nan', 'nan1', 'inf', '-inf', 'big', 'huge'])
        return w

    def program(self):
        r = self.rng
        self.build()
        ok = False
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(r.randint(*self.cfg['steps'])):
                self.step()
            ok = self.add_min() or ok
        if not ok:
            self.add_leaf([3])
            self.add_min()
        for _ in range(r.randint(*self.cfg['steps'])):
            self.step()
        self.prog.append({'op': 'sweep', 'dr': r.random() < .3, 'seed': r.randrange(1 << 30)})
        return self.prog


class Solver(object):
    """Stand-in for the linear solver: answers as scheduled."""

    def __init__(self, ex, op):
        self.ex, self.answers, self.calls = ex, op['answers'], 0
        self.rng = np.random.RandomState(op['seed'] % (1 << 31))
        self.cycle = not op.get('settle')
        self.fail_at = None
        self.exc = None

    def twist(self, x, dense=False):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.ex.fired = 'solver'
            raise self.exc('simulated: linear solver failed')
        a = self.answers[(self.calls - 1) % len(self.answers)] if self.cycle or self.calls <= len(self.answers) else 'ok'
        if a == 'singular' and not dense:
            a = 'nan'
        self.ex.stat('fault:solver %s' % a if a != 'ok' else 'solver ok')
        if a == 'singular':
            raise np.linalg.LinAlgError('simulated: Singular matrix')
        x = np.array(x, dtype=np.float64).ravel()
        if a == 'ok':
            return x
        if a == 'scaled':
            return x * self.rng.uniform(.1, 30)
        if a == 'neg':
            return -x
        if a == 'random':
            return self.rng.uniform(-3, 3, x.shape)
        if a == 'zero':
            return x * 0
        if a == 'huge':
            return x * 1e12
        if a == 'vast':              # finite, but not its square
            return x * 1e200
        if a == 'tiny':
            return x * 1e-14
        if a in ('part', 'partinf'):
            x[self.rng.randint(x.size)] = np.nan if a == 'part' else np.inf
            return x
        return x * 0 + {'nan': np.nan, 'inf': np.inf}[a]

    def sparse(self, A, b):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                x = np.linalg.lstsq(np.asarray(A.todense()), np.asarray(b), rcond=None)[0]
            except Exception:
                x = np.zeros(np.size(b))
        return self.twist(x)


class OptExec(Exec):
    """The operation 'min' with its invariants."""
    LIMIT_FACTOR = 1200

    def parts(self, op):
        """[(object, leaf id, flat indices)]"""
        out = []
        for f in op['free']:
            self.need(f['leaf'])
            if 'node' in f:
                self.need(f['node'])
                nd = self.m.n[f['node']]
                if nd.kind != 'select' or nd.ins.get('a') != f['leaf']:
                    raise Skip()
                out.append((self.obj[f['node']], f['leaf'], np.array(nd.o['idxs'])))
                continue
            v = self.m.vals[f['leaf']]
            cur = np.arange(v.size).reshape(v.shape)
            o = self.obj[f['leaf']]
            for k in f['keys']:
                o = self.call('slicing', lambda: o[dec_key(k)])
                cur = np.atleast_1d(cur[dec_key(k)])
            out.append((o, f['leaf'], cur.ravel()))
        seen = set()
        for o, l, idx in out:
            for i in idx.tolist():
                if (l, i) in seen:
                    raise Skip()
                seen.add((l, i))
        return out

    def leaf_data(self):
        objs = self.tagged()
        return {i: np.array(np.atleast_1d(np.asarray(o.x, dtype=np.float64))) for i, o in objs.items()
                if i in self.m.n and self.m.n[i].kind == 'leaf'}

    def point(self):
        d = self.leaf_data()
        return np.concatenate([d[l].ravel()[idx] for _, l, idx in self.fr])

    def usable(self, op):
        """every free part influences the residuals and derivatives are unambiguous"""
        from .graph import wrt_ok
        for i in op['res']:
            self.need(i)
        for o, l, idx in self.fr:
            tot = 0
            for i in op['res']:
                if l in self.m.below(i):
                    tot += np.abs(self.m.deriv(i, l)[:, idx]).sum()
            if tot == 0:
                return False
        return True

    def objective(self, op):
        rs = [self.obj[i] for i in op['res']]
        f = op['form']
        if f == 'single' and len(rs) == 1:
            return rs[0]
        if f == 'dict':
            return {'part%d' % k: r for k, r in enumerate(rs)}
        if f == 'tuple':
            return tuple(rs)
        return rs

    def sse(self, op):
        return sum(float(np.sum(np.asarray(self.obj[i].r) ** 2)) for i in op['res'])

    def run_min(self, op, on_step):
        ch = self.ch
        o = dict(op['opt'])
        o['sparse_solver'] = self.solver.sparse if op['solver'] in ('ok', 'bad') else op['solver']
        objective = self.objective(op)
        fvs = [p[0] for p in self.fr]
        if op['api'] == 'internal':
            from chumpy.optimization_internal import minimize_dogleg
            return minimize_dogleg(objective, fvs, on_step=on_step, **o)
        if op['api'] == 'method' and hasattr(objective, 'minimize'):
            return objective.minimize(fvs, method='dogleg', callback=on_step, options=o)
        return ch.minimize(objective, x0=fvs, method='dogleg', callback=on_step, options=o)

    def fixed_ok(self, d0):
        """nothing but the free elements may change"""
        d = self.leaf_data()
        mask = {}
        for _, l, idx in self.fr:
            mask.setdefault(l, set()).update(idx.tolist())
        for i, a in d0.items():
            if i not in d:
                continue
            b = d[i]
            if a.size != b.size:
                raise Violation('not-free-changed', 'variable #%s changed its size' % i)
            keep = [k for k in range(a.size) if k not in mask.get(i, ())]
            if keep and not np.array_equal(a.ravel()[keep], b.ravel()[keep]):
                raise Violation('not-free-changed', 'elements of variable #%s that are not free changed from %s to %s' % (
                    i, a.ravel()[keep].tolist(), b.ravel()[keep].tolist()))

    def consistent(self, ids, what, tol=1e-7):
        """expressions read as the variables' current data say"""
        self.m.force(self.leaf_data())
        for i in ids:
            if i not in self.obj or self.m.vals.get(i) is None:
                continue
            got = np.asarray(self.call('reading', lambda: self.obj[i].r))
            exp = self.m.vals[i]
            self.stat('values')
            if not np.all(np.isfinite(exp)) and np.array_equal(got, exp, equal_nan=True):
                continue                # a variable a minimization has left at infinity
            if got.shape != exp.shape or not np.all(np.isfinite(got)) or not close(got, exp, tol):
                raise Violation('wrong-value', '%s %s reads %s, the variables say %s' % (
                    self.describe(i), what, np.round(got.ravel(), 6).tolist(), np.round(exp.ravel(), 6).tolist()))

    def setup_min(self, op):
        self.fr = self.parts(op)
        if not self.fr or not self.usable(op):
            raise Skip()
        self.solver = Solver(self, op)
        if op['solver'] == 'ok':
            self.solver.answers = ['ok']
        for i in op['res']:
            if not np.sum(self.m.vals[i] ** 2) < 1e12:
                raise Skip()
        ctl = self.W.user.ctl
        below = set().union(*[self.m.below(i) for i in op['res']])
        ctl.nodes = {i for i in below if self.m.n[i].kind == 'flaky'}
        self.nflaky = max(1, len(ctl.nodes))
        ctl.evals, ctl.points, ctl.hurt, ctl.watch = 0, {}, [], True
        # the points are numbered over all flaky nodes; the first of each is good
        ctl.bad = {int(k): v for k, v in op['bad'].items() if int(k) > self.nflaky}
        for i in ctl.nodes:
            ctl.points[i, point_key(self.m.vals[i])] = None
        o = op['opt']
        lim = (o.get('maxiter', 200) + 1) * self.LIMIT_FACTOR
        if o.get('max_fevals'):
            lim = min(lim, o['max_fevals'] + 2)
        ctl.limit = lim * self.nflaky + 4
        return ctl

    def run_guarded(self, op, on_step):
        """Returns None or the exception the minimization ended with."""
        ctl = self.W.user.ctl
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    if op.get('dense'):
                        real = np.linalg.solve

                        def solve(A, b, real=real):
                            return self.solver.twist(real(A, b), dense=True)
                        np.linalg.solve = solve
                        try:
                            self.run_min(op, on_step)
                        finally:
                            np.linalg.solve = real
                    else:
                        self.run_min(op, on_step)
            return None
        except Violation:
            raise
        except Runaway as e:
            raise Violation('no-progress', 'the minimization did not stop: %s' % e)
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            return e
        finally:
            self.stat('evaluations', ctl.evals)
            for v in ctl.hurt:
                self.stat('fault:evaluation %s' % v)
            ctl.watch, ctl.bad, ctl.nodes = False, {}, ()

    def x_min(self, op):
        self.setup_min(op)
        d0 = self.leaf_data()
        p0 = self.point()
        hist = []
        looks = list(op['res']) + [i for i in list(self.obj)[-3:] if i not in op['res']]

        def on_step(obj):
            self.W.user.ctl.watch = False
            look(obj)
            self.W.user.ctl.watch = True

        def look(obj):
            p = self.point()
            s = self.sse(op)
            if hist:
                if not s <= hist[-1][1] * (1 + 1e-9) + 1e-12:
                    raise Violation('lost-ground', 'the sum of squares rose from %.9g to %.9g at callback %d' % (hist[-1][1], s, len(hist)))
            elif not np.array_equal(p, p0):
                raise Violation('moved', 'the free variables moved before the first callback')
            hist.append((p, s))
            self.fixed_ok(d0)
            self.consistent(looks, 'at callback %d' % (len(hist) - 1))
            self.stat('callbacks')

        err = self.run_guarded(op, on_step)
        self.stat('minimizations')
        if err is not None:
            self.on_error(op, err)
        else:
            if len(hist) > 1:
                self.stat('improved')
            if len(hist) > op['opt'].get('maxiter', 200) + 1:
                raise Violation('no-progress', '%d accepted steps with a limit of %d' % (len(hist) - 1, op['opt']['maxiter']))
            if not hist:
                raise Violation('no-callback', 'the progress callback was never called')
            p = self.point()
            if not np.array_equal(p, hist[-1][0]):
                raise Violation('not-undone', 'the free variables hold %s, the last accepted point is %s' % (p.tolist(), hist[-1][0].tolist()))
        self.fixed_ok(d0)
        self.finish(op, d0, hist, err)

    def on_error(self, op, err):
        import traceback
        tb = traceback.extract_tb(err.__traceback__)
        self.stat('minimization raised')
        raise Violation('unexpected-exception', 'the minimization raised %s: %s (%s)' % (
            type(err).__name__, str(err)[:160], ', '.join('%s:%s' % (f.filename.split('/')[-1], f.name) for f in tb[-3:])))

    def finish(self, op, d0, hist, err):
        """afterwards: everything reads as the variables say; then back into the model's domain"""
        self.consistent(list(self.obj), 'after the minimization')
        bad = [i for i in self.m.n if self.m.vals.get(i) is None]
        if bad:
            objs = self.tagged()
            for i, d in d0.items():
                if i in objs and not np.array_equal(np.atleast_1d(objs[i].x), d):
                    self.call('setx', setattr, objs[i], 'x', d.copy())
            self.m.force(d0)
            self.stat('reset')


# ---- scipy.optimize.minimize behind a seam, in place before chumpy is imported
import scipy.optimize

REAL_MINIMIZE = scipy.optimize.minimize


class Seam(object):
    handler = None


def minimize_seam(*args, **kw):
    if Seam.handler is None:
        return REAL_MINIMIZE(*args, **kw)
    return Seam.handler(*args, **kw)


scipy.optimize.minimize = minimize_seam

METHODS = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'Newton-CG', 'trust-ncg', 'trust-krylov']


class Requests(object):
    """Stands between the library and the solver: sees each request and its answer."""

    def __init__(self, ex, drive):
        self.ex, self.drive, self.log = ex, drive, []
        self.start = self.result = None

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, **kw):
        self.start = np.array(x0)
        self.args = args
        self.method = method

        def wrap(kind, f):
            if f is None or not callable(f):
                return f

            def asked(vs, *rest):
                at = np.array(vs)
                p = np.array(rest[0]) if kind == 'hessp' else None
                self.log.append((kind, at))
                ans = f(vs, *rest)
                self.ex.answered(kind, at, p, ans)
                return ans
            return asked
        fs = {'fun': wrap('fun', fun), 'jac': wrap('jac', jac), 'hess': wrap('hess', hess), 'hessp': wrap('hessp', hessp)}
        self.result = self.drive(fs, np.array(x0), args, method, kw)
        return self.result


class GaveUp(Exception):
    """The real solver raised by itself."""


def real_drive(fs, x0, args, method, kw):
    raised = []

    def note(f):
        if f is None or not callable(f):
            return f

        def g(*a, **k):
            try:
                return f(*a, **k)
            except BaseException as e:
                raised.append(e)
                raise
        return g
    fs = {k: note(f) for k, f in fs.items()}
    if kw.get('callback'):
        kw = dict(kw, callback=note(kw['callback']))
    try:
        return REAL_MINIMIZE(fs['fun'], x0, args=args, method=method, jac=fs['jac'], hess=fs['hess'], hessp=fs['hessp'], **kw)
    except Exception as e:
        if not raised:
            raise GaveUp('%s: %s' % (type(e).__name__, e))
        raise
