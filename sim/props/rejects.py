"""C04: edits that raise, and edits that are accepted but leave an expression without a
value until they are taken back."""
import numpy as np

from ..graph import Gen, Violation, Skip, apply_model, arr, item_target, dec_key
from ..kinds import KINDS, rand_key, idx_of, rnd
from .base import GraphProp
from .interrupts import IExec

BAD = {'text': lambda: 'not a number', 'object': lambda: object(), 'ragged': lambda: [[1., 2.], [3.]],
       'dict': lambda: {'a': 1}, 'raises': lambda: Bad()}


class Bad(object):
    def __array__(self, *a, **k):
        raise RuntimeError('simulated: data cannot be read')

    def __float__(self):
        raise RuntimeError('simulated: data cannot be read')


class RGen(Gen):
    def step(self):
        if self.rng.random() < self.cfg.get('reject', .4):
            return self.reject()
        return Gen.step(self)

    def reject(self):
        r = self.rng
        how = r.choices(['slot', 'set', 'item', 'viewitem', 'nonview', 'build', 'replace', 'prop', 'readonly',
                         'badx', 'badopt', 'badwire', 'extra', 'dterm'],
                        [3, 6, 3, 3, 1, 2, 1, 2, 1, 2, 2, 3, 1, 1])[0]
        op = getattr(self, 'r_' + how)()
        if op is None:
            return False
        op.update(op='reject', how=how, look=[r.choice(self.held) for _ in range(r.randint(0, 3))])
        self.prog.append(op)
        return True

    def nodes(self, f=lambda k: True):
        return [i for i in self.held if not self.m.isleaf(i) and i not in self.m.frozen and
                KINDS[self.m.n[i].kind].rewire and KINDS[self.m.n[i].kind].single and f(KINDS[self.m.n[i].kind])]

    def r_slot(self):
        c = self.nodes()
        if not c:
            return None
        i = self.rng.choice(c)
        return {'id': i, 'slot': self.rng.choice(sorted(self.m.n[i].ins)), 'bad': self.rng.choice(sorted(BAD))}

    def r_set(self):
        """several settings in one call, one of them bad"""
        r = self.rng
        c = self.nodes(lambda k: len(k.slots) + len(k.settable) > 1 and k.name not in ('select', 'lambda'))
        if not c:
            return None
        i = r.choice(c)
        nd = self.m.n[i]
        k = KINDS[nd.kind]
        slots = list(k.slots)
        r.shuffle(slots)
        bad = slots.pop()
        ins = {}
        for s in slots:
            cur = self.m.vals[nd.ins[s]].shape
            same = [j for j in self.held if self.m.vals[j].shape == cur and i not in self.m.below(j)]
            if same and r.random() < .9:
                ins[s] = r.choice(same)
            else:
                ins[s] = {'c': self.data(list(cur))}
        o = {}
        if k.settable:
            shs = [list(self.m.vals[nd.ins[s]].shape) for s in k.slots]
            try:
                o = {n: v for n, v in (k.opts(r, shs) or {}).items() if n in k.settable and r.random() < .8}
            except Exception:
                o = {}
        if not ins and not o:
            return None
        return {'id': i, 'bads': [bad], 'bad': r.choice(sorted(BAD)), 'ins': ins, 'o': o}

    def r_item(self):
        i = self.pick(leaf=True)
        if i is None:
            return None
        r = self.rng
        return {'id': i, 'kind': r.choice(['index', 'shape', 'text', 'ch', 'raises', 'ragged'])}

    def r_viewitem(self):
        c = [i for i in self.held if not self.m.isleaf(i) and item_target(self.m, i) is not None]
        if not c:
            return None
        return {'id': self.rng.choice(c), 'kind': self.rng.choice(['index', 'shape', 'text', 'ch', 'raises'])}

    def r_nonview(self):
        c = [i for i in self.held if not self.m.isleaf(i) and item_target(self.m, i) is None]
        return {'id': self.rng.choice(c)} if c else None

    def r_build(self):
        r = self.rng
        return {'id': r.choice(self.held), 'bad': r.choice(sorted(BAD)), 'kind': r.choice(['add', 'multiply', 'maximum', 'Ch', 'vstack', 'probe', 'sum'])}

    def r_replace(self):
        c = [i for i in self.held if not self.m.isleaf(i)]
        return {'id': self.rng.choice(c), 'old': self.rng.choice(self.held)} if c else None

    def r_prop(self):
        c = [i for i in self.held if self.m.n[i].kind == 'gauge' and i not in self.m.frozen]
        if not c:
            return None
        return {'id': self.rng.choice(c), 'level': rnd(self.rng, 1, .2, 1.5)[0], 'both': self.rng.random() < .6}

    def r_readonly(self):
        return {'id': self.rng.choice(self.held), 'name': self.rng.choice(['r', 'shape', 'T', 'size'])}

    def r_dterm(self):
        c = [i for i in self.held if not self.m.isleaf(i)]
        return {'id': self.rng.choice(c), 'bad': self.rng.choice(sorted(BAD))} if c else None

    def r_extra(self):
        return {'id': self.rng.choice(self.held)}

    def looks(self, i):
        r = self.rng
        dep = [j for j in self.m.dependents(i) if j in self.held]
        if not dep:
            return []
        return [{'f': r.choice(dep), 'dr': r.random() < .5} for _ in range(r.randint(1, 3))]

    def r_badx(self):
        i = self.pick(leaf=True)
        if i is None:
            return None
        lk = self.looks(i)
        if not self.e_setx(i):
            return None
        return {'id': i, 'bad': self.rng.choice(['text', 'object', 'raises', 'shape']), 'looks': lk, 'heal': self.prog.pop()}

    def r_badopt(self):
        r = self.rng
        c = [i for i in self.held if not self.m.isleaf(i) and KINDS[self.m.n[i].kind].settable
             and i not in self.m.frozen and self.m.n[i].kind != 'select']
        if not c:
            return None
        i = r.choice(c)
        k = KINDS[self.m.n[i].kind]
        return {'id': i, 'name': r.choice(list(k.settable)), 'bad': r.choice(['text', 'object', 'far']), 'looks': self.looks(i)}

    def r_badwire(self):
        r = self.rng
        c = self.nodes(lambda k: k.name != 'lambda')
        if not c:
            return None
        i = r.choice(c)
        nd = self.m.n[i]
        s = r.choice(sorted(nd.ins))
        to = [j for j in self.held if self.m.vals[j].shape != self.m.vals[nd.ins[s]].shape and i not in self.m.below(j)]
        if not to or nd.ins[s] not in self.held or (i, s) in self.m.virtual:
            return None
        return {'id': i, 'slot': s, 'to': r.choice(to), 'looks': self.looks(i)}


class RExec(IExec):
    def refused(self, f, *a):
        """True if the edit raised."""
        try:
            f(*a)
        except Violation:
            raise
        except Exception:
            self.stat('fault:edit rejected')
            return True
        self.stat('edit accepted')
        return False

    def settle(self, op, m0, m1):
        mm = self.adopt(op, m0, m1)
        if mm is None:
            return False
        self.m = mm
        return True

    def x_reject(self, op):
        self.need(op['id'])
        o = self.obj[op['id']]
        m0 = self.m.clone()
        getattr(self, 'q_' + op['how'])(op, o, m0)
        self.check_leaves()
        for i in op['look']:
            if i in self.obj:
                self.read(i)

    def rewirable(self, i):
        nd = self.m.n[i]
        if nd.kind == 'leaf' or i in self.m.frozen:
            raise Skip()
        return nd

    def q_slot(self, op, o, m0):
        nd = self.rewirable(op['id'])
        self.stat('how:slot %s' % op['bad'])
        if not self.refused(setattr, o, op['slot'], BAD[op['bad']]()):
            raise Violation('bad-accepted', '%s was accepted as an input of %s' % (op['bad'], self.describe(op['id'])))
        if not self.same(o, nd, op['slot'], m0):
            raise Violation('torn-setting', 'a rejected edit changed %s of %s' % (op['slot'], self.describe(op['id'])))

    def same(self, o, nd, name, m0):
        self.mm = m0
        return self.same_setting(o, nd, name, (nd.id, name) in m0.virtual)

    def q_set(self, op, o, m0):
        nd = self.rewirable(op['id'])
        for v in op['ins'].values():
            if not isinstance(v, dict):
                self.need(v)
        good = {'op': 'rewire', 'id': op['id'], 'ins': op['ins'], 'o': op['o'], 'via': 'set'}
        m1 = self.m.clone()
        if not apply_model(m1, good):
            raise Skip()
        kw = dict(self.inputs(op['ins']))
        kw.update(self.opt_items(nd.kind, op['o']))
        for b in op['bads']:
            kw[b] = BAD[op['bad']]()
        if not self.refused(lambda: o.set(**kw)):
            raise Violation('bad-accepted', 'a bad input of %s was accepted' % self.describe(op['id']))
        for b in op['bads']:
            if not self.same(o, nd, b, m0):
                raise Violation('torn-setting', 'a rejected edit changed %s of %s' % (b, self.describe(op['id'])))
        if not self.settle(good, m0, m1):
            self.m = m1
            self.call('set', self.do_rewire, good)

    def bad_item(self, op, o):
        n = self.m.vals[op['id']].size
        k = op['kind']
        if k == 'index':
            o[n + 3] = 1.
        elif k == 'shape':
            o[:] = np.ones(n + 2)
        elif k == 'ch':
            o[0] = self.ch.Ch(np.ones(1))
        elif k == 'ragged':
            o[0] = [[1., 2.], [3.]]
        else:
            o[0] = BAD[k]()

    def q_item(self, op, o, m0):
        if not self.m.isleaf(op['id']):
            raise Skip()
        self.stat('how:item %s' % op['kind'])
        if not self.refused(self.bad_item, op, o):
            raise Violation('bad-accepted', 'item assignment (%s) was accepted' % op['kind'])

    def q_viewitem(self, op, o, m0):
        t = item_target(self.m, op['id'])
        if t is None or self.m.isleaf(op['id']):
            raise Skip()
        self.stat('how:viewitem %s' % op['kind'])
        if not self.refused(self.bad_item, op, o):
            raise Violation('bad-accepted', 'item assignment (%s) through a view was accepted' % op['kind'])

    def q_nonview(self, op, o, m0):
        if item_target(self.m, op['id']) is not None:
            raise Skip()
        base = self.m.perm_base(op['id'])[0]
        if self.m.isleaf(base):
            raise Skip()
        if not self.refused(o.__setitem__, 0, 5.):
            raise Violation('bad-accepted', 'item assignment to a computed expression was accepted')

    def q_build(self, op, o, m0):
        b = BAD[op['bad']]()
        ch = self.ch
        f = {'add': lambda: ch.add(a=o, b=b), 'multiply': lambda: ch.multiply(a=o, b=b), 'maximum': lambda: ch.maximum(o, b),
             'Ch': lambda: ch.Ch(b), 'vstack': lambda: ch.vstack([o, b]),
             'probe': lambda: ch._sim_user.Probe(p=o, q=b, scale=1., shift=0.), 'sum': lambda: ch.sum(b)}[op['kind']]
        self.refused(f)

    def q_replace(self, op, o, m0):
        if op['old'] not in self.obj or self.m.isleaf(op['id']):
            raise Skip()
        if not self.refused(o.replace, self.obj[op['old']], 5.):
            raise Violation('bad-accepted', 'replacing an expression by a plain number was accepted')

    def q_prop(self, op, o, m0):
        nd = self.rewirable(op['id'])
        if nd.kind != 'gauge':
            raise Skip()
        good = {'op': 'setopt', 'id': op['id'], 'o': {'level': op['level']}, 'via': 'set'}
        m1 = self.m.clone()
        if not apply_model(m1, good):
            raise Skip()
        kw = {'limit': -1.}
        if op['both']:
            kw['level'] = op['level']
        if not self.refused(lambda: o.set(**kw)):
            raise Violation('bad-accepted', 'a validating setter was bypassed')
        if not self.settle(good, m0, m1):
            raise Skip()

    def q_readonly(self, op, o, m0):
        self.refused(setattr, o, op['name'], np.ones(2))
        if op['name'] in o.__dict__:
            raise Violation('bad-accepted', 'the read-only attribute %s was overwritten' % op['name'])

    def q_dterm(self, op, o, m0):
        if self.m.isleaf(op['id']):
            raise Skip()
        if not self.refused(o.add_dterm, 'spare', BAD[op['bad']]()):
            raise Violation('bad-accepted', '%s was accepted as an input of %s' % (op['bad'], self.describe(op['id'])))

    def q_extra(self, op, o, m0):
        self.refused(lambda: self.ch.add(o, o, o, o))

    def glance(self, op, o):
        for l in op['looks']:
            if l['f'] in self.obj:
                f = self.obj[l['f']]
                try:
                    with np.errstate(all='ignore'):
                        if l['dr']:
                            for w in [x for i, x in self.obj.items() if self.m.isleaf(i)][:2]:
                                f.dr_wrt(w)
                        else:
                            f.r
                    self.stat('invalid state read')
                except Exception:
                    self.stat('fault:read of an invalid state')

    def q_badx(self, op, o, m0):
        if not self.m.isleaf(op['id']):
            raise Skip()
        b = np.ones(13) if op['bad'] == 'shape' else BAD[op['bad']]()
        self.refused(setattr, o, 'x', b)
        self.glance(op, o)
        self.heal(op['heal'])

    def q_badopt(self, op, o, m0):
        nd = self.rewirable(op['id'])
        if op['name'] not in KINDS[nd.kind].settable or op['name'] not in nd.o:
            raise Skip()
        old = o.__dict__.get(op['name'], self.optval(nd.kind, op['name'], nd.o[op['name']]))
        self.refused(setattr, o, op['name'], {'far': lambda: 99, 'text': lambda: 'zz', 'object': lambda: object()}[op['bad']]())
        self.glance(op, o)
        self.call('taking back an option', setattr, o, op['name'], old)

    def q_badwire(self, op, o, m0):
        nd = self.rewirable(op['id'])
        self.need(op['to'], nd.ins[op['slot']])
        if op['id'] in self.m.below(op['to']) or (op['id'], op['slot']) in self.m.virtual:
            raise Skip()
        self.refused(setattr, o, op['slot'], self.obj[op['to']])
        self.glance(op, o)
        self.call('taking back an input', setattr, o, op['slot'], self.obj[nd.ins[op['slot']]])


class C04(GraphProp):
    id = 'C04'
    quick = (1600, 90.0)
    cfg = dict(dr=.3, sweepdr=.4, edit=.5, gc=.25, probe=1.6, steps=(8, 24))
    rule = 'runs in which at least one edit was rejected and expressions were read afterwards, counted once per distinct program'

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 14), steps=(20, 60))
        return {'seed': seed, 'prog': RGen(rng, cfg).program(), 'setorder': rng.random() < .6}

    def run(self, case):
        with self.world(case) as w:
            return RExec(w, case['prog'], 0).run()

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('how'), o.get('bad')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('fault:edit rejected', 0) > 0
