"""C08: minimizations cut short by an exception, and what is left behind."""
import sys
import warnings

import numpy as np

from ..graph import Skip, Violation, close
from ..opt import METHODS, GaveUp, OptExec, OptGen, Requests, Seam, real_drive
from .base import GraphProp

EXCS = {'value': ValueError, 'os': OSError, 'memory': MemoryError, 'kbd': KeyboardInterrupt, 'float': FloatingPointError,
        'zero': ZeroDivisionError, 'key': KeyError, 'type': TypeError, 'attr': AttributeError, 'linalg': np.linalg.LinAlgError}


class AbortGen(OptGen):
    def add_min(self):
        r = self.rng
        n = len(self.prog)
        if not OptGen.add_min(self):
            return False
        op = self.prog[-1]
        if op['op'] != 'min':
            return False
        src = r.choices(['eval', 'callback', 'solver', 'stderr'], [6, 2, 2, 2])[0]
        op['abort'] = {'src': src, 'at': r.randint(1, r.choice([2, 4, 8, 25, 60] if src == 'eval' else [1, 2, 4, 8])),
                       'exc': r.choice(list(EXCS))}
        if src == 'stderr':
            op['opt']['disp'] = True
        if src == 'solver':
            op['solver'] = 'ok'
            op['opt'].pop('treat_as_dense', None)
        if r.random() < .45:
            op['method'] = r.choice(METHODS)
            if src in ('solver', 'stderr'):
                op['abort']['src'] = r.choice(['eval', 'callback'])
        # the very same objective object again
        if r.random() < .4:
            del op['res'][1:]
            op['form'] = 'single'
            keep = [f for f in op['free'] if f['leaf'] in self.m.below(op['res'][0])]
            op['free'] = keep[:2] if len({f['leaf'] for f in keep}) == 1 else [{'leaf': l, 'keys': []} for l in sorted({f['leaf'] for f in keep})]
        # the one that follows
        op['again'] = {'method': r.choice(METHODS) if r.random() < .3 else 'dogleg', 'maxiter': r.choice([1, 2, 3]),
                       'delta_0': r.choice([None, .1, 10.]), 'dense': r.random() < .3, 'same': r.random() < .6, 'fevals': r.choice([1, 2, 3, 5, 40])}
        return True

    def world(self, fr):
        w = OptGen.world(self, fr)
        w['bad'] = {}
        w['dense'] = False
        return w


class Stream(object):
    """Standard error whose n-th write fails."""

    def __init__(self, ex, at, exc):
        self.ex, self.at, self.exc, self.n = ex, at, exc, 0

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            self.ex.cause = self.exc('simulated: cannot write')
            raise self.ex.cause
        return len(s)

    def flush(self):
        pass


class AbortExec(OptExec):
    """journal: what the aborted run left; a second executor (other) is given it and does
    the follow-up minimizations without ever having seen an abort."""

    def __init__(self, W, prog, journal=None):
        OptExec.__init__(self, W, prog)
        self.follow = journal is not None
        self.journal = journal if self.follow else {}

    def answered(self, kind, at, p, ans):
        if self.logto is not None:
            self.logto.append((kind, at, np.array(np.asarray(ans.toarray() if hasattr(ans, 'toarray') else ans), dtype=np.float64).ravel()))

    logto = None

    def x_min(self, op):
        self.fr = self.parts(op)
        if not self.fr or not self.usable(op):
            raise Skip()
        if self.follow:
            j = self.journal.get(self.k)
            if j is None:
                raise Skip()
            objs = self.tagged()
            for i, d in j['data'].items():
                if i in objs and not np.array_equal(np.atleast_1d(objs[i].x), d):
                    objs[i].x = d.copy()
            self.m.force(j['data'])
            self.compare(self.again(op), j['trace'])
        else:
            self.first(op)
            data = self.leaf_data()
            if any(v is None for v in (self.m.vals[i] for i in op['res'])):
                # the point left behind is outside the model's domain: go on from the start
                trace = None
            else:
                self.fr = self.parts(op)
                if self.usable(op):
                    trace = self.again(op)
                    self.journal[self.k] = {'data': data, 'trace': trace}
        # afterwards
        self.finish(op, self.d0 if not self.follow else j['d0'], [], None)
        if not self.follow and self.k in self.journal:
            self.journal[self.k]['d0'] = self.d0

    def first(self, op):
        self.setup_min(op)
        ab = op['abort']
        ctl = self.W.user.ctl
        if op.get('method'):
            ctl.limit = None
        self.d0 = d0 = self.leaf_data()
        tried = {self.point().tobytes()}
        self.cause = None
        # SciPy's trust region methods take a LinAlgError for their own linear algebra giving up, and stop in good order
        exc = EXCS['value' if ab['exc'] == 'linalg' and op.get('method') else ab['exc']]
        seen = [0]

        def cb(*a):
            tried.add(self.point().tobytes())
            seen[0] += 1
            if ab['src'] == 'callback' and seen[0] == ab['at']:
                self.cause = exc('simulated: callback')
                raise self.cause

        def watch(node, method):
            if method == 'compute_r':
                tried.add(self.point().tobytes())
        ctl.observer = watch
        self.watched = set(ctl.nodes)
        if ab['src'] == 'eval':
            def make(msg):
                self.cause = exc(msg)
                return self.cause
            ctl.arm(ab['at'], make)
        if ab['src'] == 'solver':
            def make(msg):
                self.cause = exc(msg)
                return self.cause
            self.solver.fail_at, self.solver.exc = ab['at'], make
        keep = sys.stderr
        if ab['src'] == 'stderr':
            sys.stderr = Stream(self, ab['at'], exc)
        err = None
        try:
            if op.get('method'):
                err = self.guarded_scipy(op, cb)
            else:
                err = self.run_guarded(op, cb)
        finally:
            sys.stderr = keep
            ctl.observer = None
            ctl.off()
            ctl.watch, ctl.bad, ctl.nodes = False, {}, ()
        self.stat('minimizations')
        if self.cause is None:
            if err is not None:
                self.on_error(op, err)
        else:
            self.stat('fault:abort in %s (%s)' % (ab['src'], 'scipy' if op.get('method') else 'dogleg'))
            if err is None:
                raise Violation('swallowed', 'a %s raised by the %s did not reach the caller' % (type(self.cause).__name__, ab['src']))
            if err is not self.cause:
                raise Violation('swallowed', 'a %s raised by the %s reached the caller as %s: %s' % (
                    type(self.cause).__name__, ab['src'], type(err).__name__, str(err)[:100]))
        p = self.point()
        if op.get('method'):
            tried |= {a.tobytes() for _, a in self.asked.log}
            known = True
        else:
            watched = set().union(*[self.m.below(i) for i in self.watched]) if self.watched else set()
            known = all(l in watched for _, l, _ in self.fr)
        if known and p.tobytes() not in tried:
            raise Violation('strange-point', 'the free variables hold %s, which was neither accepted nor tried' % p.tolist())
        self.fixed_ok(d0)
        if not np.all(np.isfinite(p)):
            for i, d in d0.items():
                self.call('setx', setattr, self.tagged()[i], 'x', d.copy())
        self.consistent(list(self.obj), 'after the abort')
        for i in op['res']:
            for l in sorted({l for _, l, _ in self.fr if l in self.obj}):
                q = {'op': 'dr', 'f': i, 'w': l, 'mode': 'fwd'}
                if self.m.vals[i] is not None and all(self.m.vals[k] is not None for k in self.m.below(i)) and l in self.m.below(i):
                    try:
                        self.x_dr(q)
                    except Skip:
                        pass

    def guarded_scipy(self, op, cb):
        if sum(self.m.vals[i].size for i in op['res']) == 1 and op['method'] in ('trust-ncg', 'trust-krylov'):
            raise Skip()
        kw = dict(method=op['method'], options=self.limits(op['method'], op['opt']['maxiter']))
        kw['callback'] = cb
        self.asked = Seam.handler = Requests(self, real_drive)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    self.ch.minimize(self.objective(op), [p[0] for p in self.fr], **kw)
        except GaveUp:
            return None
        except (Violation, Skip):
            raise
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            return e
        finally:
            Seam.handler = None
        return None

    @staticmethod
    def limits(method, n):
        n = min(n, 5)
        return {'maxfun': 10 * n} if method == 'TNC' else {'maxiter': 10 * n} if method in ('COBYLA', 'Nelder-Mead', 'Powell') else {'maxiter': n}

    def again(self, op):
        a = op['again']
        trace = []
        method = op.get('method') or 'dogleg' if a['same'] else a['method']
        if method in ('trust-ncg', 'trust-krylov') and sum(self.m.vals[i].size for i in op['res']) == 1:
            method = 'BFGS'
        fvs = [p[0] for p in self.fr]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                if method == 'dogleg':
                    o = {'maxiter': a['maxiter'], 'disp': False, 'treat_as_dense': a['dense'], 'max_fevals': a.get('fevals', 40)}
                    if a['delta_0']:
                        o['delta_0'] = a['delta_0']

                    def cb(obj):
                        trace.append(('callback', self.point(), np.array([self.sse(op)])))
                    self.call('minimizing again', lambda: self.ch.minimize(self.objective(op), fvs, method='dogleg', callback=cb, options=o))
                    trace.append(('end', self.point(), np.array([self.sse(op)])))
                else:
                    self.logto = trace
                    Seam.handler = Requests(self, real_drive)
                    try:
                        self.call('minimizing again with %s' % method, self.unless_it_gives_up,
                                  lambda: self.ch.minimize(self.objective(op), fvs, method=method, options=self.limits(method, 1)))
                    finally:
                        Seam.handler = None
                        self.logto = None
        self.stat('minimizations again')
        return trace

    @staticmethod
    def unless_it_gives_up(call):
        try:
            call()
        except GaveUp:
            pass

    def compare(self, fresh, trace):
        self.stat('followed up')
        for k, (a, b) in enumerate(zip(fresh[:6], trace[:6])):
            if a[0] != b[0] or not close(a[1], b[1], 1e-5) or not close(a[2], b[2], 1e-5):
                raise Violation('unlike-fresh', 'event %d of the minimization after the abort is %s at %s with %s; on a problem that saw no abort it is %s at %s with %s' % (
                    k, b[0], np.round(b[1], 7).tolist(), np.round(b[2], 7).tolist(), a[0], np.round(a[1], 7).tolist(), np.round(a[2], 7).tolist()))
        if len(fresh) < 6 and len(fresh) != len(trace) or len(trace) < 6 and len(fresh) != len(trace):
            raise Violation('unlike-fresh', 'the minimization after the abort has %d events, on a problem that saw no abort %d' % (len(trace), len(fresh)))


class C08(GraphProp):
    id = 'C08'
    quick = (1120, 95.0)
    rule = 'runs in which a minimization was aborted, counted once per distinct program'
    stub = GraphProp.stub + ['standard error (scheduled write failures)', 'linear solver (scheduled failures)']

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(2, 9))
        return {'seed': seed, 'prog': AbortGen(rng, cfg).program(), 'setorder': rng.random() < .3, 'ids': rng.random() < .3}

    def run(self, case):
        with self.world(case) as w:
            a = AbortExec(w, case['prog'])
            st = a.run()
        if a.journal:
            with self.world(case) as w:
                st2 = AbortExec(w, case['prog'], a.journal).run()
            st['followed up'] = st2.get('followed up', 0)
        return st

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('form'), o.get('method'), o.get('abort'), o.get('again'), len(o.get('free', []))] for o in case['prog']]

    def nontrivial(self, case, st):
        return any(k.startswith('fault:abort') for k in st)
