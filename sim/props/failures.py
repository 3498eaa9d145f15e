"""C03: reads that fail part-way.

A fault is placed inside a read: at the n-th call of a user node's method, or at the
n-th call the library makes into NumPy/SciPy (out of memory, singular matrix).  The
read is retried with the fault further and further on until it goes through, with
looks at other expressions in between; or it is not retried and the program goes on.
Invalid intermediate states (singular matrices, mismatching shapes, NaN) are entered,
read and left again."""
import numpy as np

from ..graph import Exec, Gen, Violation, Skip, apply_model, dr_possible, arr
from ..kinds import KINDS, rnd
from .base import GraphProp

EXC = {'probe': ['ProbeFailure', 'MemoryError', 'ValueError', 'KeyboardInterrupt'],
       'np': ['MemoryError', 'MemoryError', 'LinAlgError', 'FloatingPointError', 'ValueError']}


class FGen(Gen):
    def step(self):
        r = self.rng
        x = r.random()
        if x < self.cfg.get('fail', .4):
            return self.fail()
        if x < self.cfg.get('fail', .4) + .1:
            return self.poison()
        return Gen.step(self)

    def look(self, i):
        """under study: mostly looks that fail first"""
        n = len(self.prog)
        if not Gen.look(self, i) or self.rng.random() < .15:
            return True
        t = self.prog.pop()
        assert len(self.prog) == n
        return self.fail(t, 'probe' if 'probe' in KINDS[self.m.n[i].kind].groups and self.rng.random() < .6 else 'np')

    def fail(self, t=None, src=None):
        r = self.rng
        n = len(self.prog)
        if t is None:
            if not self.observe_user():
                return False
            t = self.prog.pop()
            assert len(self.prog) == n
        src = src or r.choice(self.cfg.get('src', ['probe', 'np', 'np']))
        op = {'op': 'fail', 't': t, 'src': src, 'exc': r.choice(EXC[src]),
              'start': r.randint(1, 3) if src == 'probe' else r.choice([r.randint(1, 4), r.randint(1, 40)]),
              'gaps': [r.randint(1, 3) if src == 'probe' else r.choice([1, 2, r.randint(1, 25)]) for _ in range(r.randint(0, 6))],
              'look': [r.choice(self.held) for _ in range(r.randint(0, 3))]}
        self.prog.append(op)
        return True

    def observe_user(self):
        r = self.rng
        users = [i for i in self.held if any('probe' in KINDS[self.m.n[j].kind].groups
                                             for j in self.m.below(i) if not self.m.isleaf(j))]
        if users and r.random() < .7:
            i = r.choice(users)
            if r.random() < .5:
                ls = [j for j in self.held if self.m.isleaf(j) and j in self.m.below(i)]
                if ls:
                    op = {'op': 'dr', 'f': i, 'w': r.choice(ls), 'mode': r.choice(['fwd', 'fwd', 'rev', 'lop'])}
                    if dr_possible(self.m, op):
                        return self.emit(op)
            return self.emit({'op': 'read', 'id': i, 'how': 'r'})
        return self.observe()

    def bad_data(self, sh):
        r = self.rng
        c = r.random()
        n = int(np.prod(sh))
        if c < .25:
            return np.zeros(sh).tolist()
        if c < .45:
            return np.ones(sh).tolist()
        if c < .6:
            v = rnd(r, n)
            v[r.randrange(n)] = float('nan')
            return np.array(v).reshape(sh).tolist()
        return self.data(self.shape())

    def poison(self):
        """Enter an invalid state, look at it, leave it."""
        r = self.rng
        i = self.pick(leaf=True)
        if i is None:
            return False
        dep = [j for j in self.m.dependents(i) if j in self.held and j != i]
        if not dep:
            return False
        sh = list(self.m.vals[i].shape)
        looks = [{'f': r.choice(dep), 'dr': r.random() < .5, 'mode': r.choice(['fwd', 'rev'])} for _ in range(r.randint(1, 3))]
        n = len(self.prog)
        if not self.e_setx(i):
            return False
        heal = self.prog.pop()
        self.prog.append({'op': 'poison', 'id': i, 'data': self.bad_data(sh), 'looks': looks,
                          'others': [r.choice(self.held) for _ in range(2)], 'heal': heal})
        return True


class FExec(Exec):
    def exc(self, name):
        if name == 'LinAlgError':
            return np.linalg.LinAlgError
        if name == 'ProbeFailure':
            from ..user import ProbeFailure
            return ProbeFailure
        return {'MemoryError': MemoryError, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
                'FloatingPointError': FloatingPointError}[name]

    def attempt(self, f, src, at, exc):
        """Run f with a fault armed.  Returns True if the fault was hit (and raised)."""
        inj = self.W.user.ctl if src == 'probe' else self.W.np
        inj.arm(at, exc)
        try:
            f()
        except Violation:
            inj.off()
            raise
        except BaseException as e:
            inj.off()
            if inj.fired is None:
                if isinstance(e, Exception):
                    raise Violation('unexpected-exception', '%s: %s without a fault' % (type(e).__name__, str(e)[:200]))
                raise
            if not isinstance(e, exc):
                raise Violation('wrong-exception', 'the fault %s in %s surfaced as %s' % (exc.__name__, inj.fired, type(e).__name__))
            self.stat('fault:%s %s' % (src, exc.__name__))
            self.stat('at:%s' % inj.fired)
            return True
        inj.off()
        if inj.fired is not None:
            raise Violation('swallowed', 'a failure (%s in %s) never reached the caller' % (exc.__name__, inj.fired))
        return False

    def target(self, t):
        if t['op'] == 'read':
            o = self.obj[t['id']]
            return lambda: o.r
        return lambda: self.do_dr(t)

    def x_fail(self, op):
        t = op['t']
        if t['op'] == 'read':
            self.need(t['id'])
        else:
            self.need(t['f'], t['w'])
            if not dr_possible(self.m, t):
                raise Skip()
        at = op['start']
        exc = self.exc(op['exc'])
        for n, g in enumerate([0] + op['gaps']):
            at += g
            if not self.attempt(self.target(t), op['src'], at, exc):
                break
            self.check_leaves()
            for i in op['look'][:max(0, 3 - n)]:
                if i in self.obj:
                    self.read(i)
        if op['gaps']:
            self.step(t)

    def x_poison(self, op):
        self.need(op['id'])
        o = self.obj[op['id']]
        dep = set(self.m.dependents(op['id']))
        self.call('setx', setattr, o, 'x', arr(op['data']))
        for l in op['looks']:
            if l['f'] not in self.obj:
                continue
            f = self.obj[l['f']]
            try:
                with np.errstate(all='ignore'):
                    if l['dr']:
                        f.dr_wrt(o, reverse_mode=l['mode'] == 'rev')
                    else:
                        f.r
                self.stat('invalid state read')
            except Exception as e:
                self.stat('fault:invalid input')
                self.stat('at:%s' % type(e).__name__)
        for i in op['others']:
            if i in self.obj and i not in dep:
                self.read(i)
        self.heal(op['heal'])


class C03(GraphProp):
    id = 'C03'
    quick = (1440, 95.0)
    cfg = dict(dr=.4, sweepdr=.5, edit=.4, gc=.25, probe=2.5, steps=(6, 20), study=.35, studysteps=(2, 6))
    executor = FExec
    rule = 'runs in which at least one injected failure was raised out of a read, counted once per distinct program'
    stub = GraphProp.stub + ['calls into NumPy/SciPy made by the library pass through a counter that can raise']

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 14), steps=(16, 50))
        return {'seed': seed, 'prog': FGen(rng, cfg).program(), 'npfaults': True}

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('src'), o.get('start'), o.get('gaps')] for o in case['prog']]

    def nontrivial(self, case, st):
        return any(k.startswith('fault:') for k in st)
