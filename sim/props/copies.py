"""C10: copies and saved graphs.  Several universes (the original, its copies, graphs loaded
from the simulated disk) are edited and read independently; a crash loses everything but
the disk, and what follows runs in a new process image."""
import copy as pycopy
import errno
import pickle

import numpy as np

from ..graph import Exec, Gen, Skip, Violation, forget
from .base import GraphProp

HOWS = ['copy', 'copyf', 'deepcopy', 'pickle']


class CopyGen(object):
    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        self.prog = []
        self.us = {}
        self.disk = {}
        self.nu = 1
        g = Gen(rng, cfg)
        self.us[0] = g

    def flush(self, u):
        g = self.us[u]
        for op in g.prog:
            self.prog.append(dict(op, u=u) if u else op)
        g.prog = []

    def sub(self, m, roots, nid):
        g = Gen(self.rng, self.cfg)
        g.m = m.clone()
        forget(g.m, roots)
        g.held = [i for i in g.m.n if not g.m.n[i].const]
        g.nid = nid
        return g

    def roots(self, g):
        r = self.rng
        tops = [i for i in g.held if not g.m.isleaf(i)] or g.held
        n = min(len(tops), r.choice([1, 1, 1, 2, 3]))
        return r.sample(tops, n)

    def copy(self, u):
        r, g = self.rng, self.us[u]
        roots = self.roots(g)
        how = r.choice(HOWS)
        if how in ('copy', 'copyf'):
            roots = roots[:1]
        to = self.nu
        self.nu += 1
        self.prog.append({'op': 'copy', 'u': u, 'roots': roots, 'how': how, 'proto': r.randint(0, 5), 'to': to})
        self.us[to] = self.sub(g.m, roots, g.nid + 1000 * to)

    def save(self, u):
        r, g = self.rng, self.us[u]
        roots = self.roots(g)
        name = 'f%d' % r.randint(0, 2)
        op = {'op': 'save', 'u': u, 'roots': roots, 'proto': r.randint(0, 5), 'name': name}
        if r.random() < .35:
            op['fault'] = [r.choice(['write', 'state', 'short']), r.randint(1, r.choice([3, 10, 60]))]
        else:
            self.disk[name] = (g.m.clone(), roots, g.nid)
        self.prog.append(op)

    def load(self):
        r = self.rng
        if not self.disk:
            return
        name = r.choice(sorted(self.disk))
        m, roots, nid = self.disk[name]
        if r.random() < .2:
            self.prog.append({'op': 'loadcut', 'name': name, 'cut': r.random()})
            return
        to = self.nu
        self.nu += 1
        self.prog.append({'op': 'load', 'name': name, 'to': to})
        self.us[to] = self.sub(m, roots, nid + 1000 * to)

    def program(self):
        r = self.rng
        self.us[0].build()
        for _ in range(r.randint(0, 6)):
            self.us[0].step()
        self.flush(0)
        for _ in range(r.randint(5, 16)):
            us = sorted(self.us)
            x = r.random()
            if us:
                u = r.choice(us)
                if x < .2 and len(us) < 5:
                    self.copy(u)
                elif x < .36:
                    self.save(u)
                elif x < .46:
                    self.load()
                elif x < .5 and len(us) > 1:
                    self.prog.append({'op': 'lose', 'u': u})
                    del self.us[u]
                elif x < .55:
                    self.prog.append({'op': 'gc', 'u': u})
                elif x < .6 and self.disk:
                    self.crash()
                elif x < .7:
                    self.prog.append({'op': 'sweep', 'u': u, 'dr': r.random() < .4, 'seed': r.randrange(1 << 30)})
                else:
                    self.us[u].step()
                    self.flush(u)
            else:
                self.load()
        for u in sorted(self.us):
            self.prog.append({'op': 'sweep', 'u': u, 'dr': r.random() < .6, 'seed': r.randrange(1 << 30)})
        if self.disk and r.random() < .6:
            self.crash()
            self.load()
            for u in sorted(self.us):
                self.prog.append({'op': 'sweep', 'u': u, 'dr': r.random() < .5, 'seed': r.randrange(1 << 30)})
                for _ in range(r.randint(0, 5)):
                    self.us[u].step()
                self.flush(u)
                self.prog.append({'op': 'sweep', 'u': u, 'dr': r.random() < .5, 'seed': r.randrange(1 << 30)})
        return self.prog

    def crash(self):
        self.prog.append({'op': 'crash'})
        self.us = {}
        self.load()


class File(object):
    """A file on the simulated disk; the n-th write may fail, or only part of it may arrive."""

    def __init__(self, fault, stat):
        self.data, self.n, self.fault, self.stat = b'', 0, fault, stat

    def write(self, b):
        self.n += 1
        b = bytes(b)
        if self.fault and self.fault[0] in ('write', 'short') and self.n >= self.fault[1]:
            if self.fault[0] == 'short':
                self.data += b[:len(b) // 2]
            self.stat('fault:%s' % {'write': 'write error', 'short': 'short write, disk full'}[self.fault[0]])
            raise OSError(errno.ENOSPC, 'simulated: no space left on device')
        self.data += b
        return len(b)


class Stored(object):
    def __init__(self, data, m, roots):
        self.data, self.m, self.roots = data, m, roots


class Multi(object):
    """All universes of one process image."""

    def __init__(self, W, disk, stats):
        self.W, self.disk, self.stats, self.us = W, disk, stats, {}

    def stat(self, n, k=1):
        self.stats[n] = self.stats.get(n, 0) + k

    def universe(self, m, obj):
        e = Exec(self.W, [])
        e.stats = self.stats
        e.m, e.obj = m, obj
        return e

    def step(self, op):
        k = op['op']
        f = getattr(self, 'x_' + k, None)
        if f:
            self.stat('op:' + k)
            return f(op)
        u = self.us.get(op.get('u', 0))
        if u is None:
            raise Skip()
        u.step(op)

    def take(self, op):
        u = self.us.get(op.get('u', 0))
        if u is None:
            raise Skip()
        for i in op['roots']:
            u.need(i)
        return u, [u.obj[i] for i in op['roots']]

    @staticmethod
    def settings(objs):
        out = {}
        for o in objs.values():
            for n in list(o.dterms) + list(o.terms):
                if n in o.__dict__:
                    out[o.__dict__.get('tag'), n] = o.__dict__[n]
        return out

    def unchanged(self, u, before, what):
        now = self.settings(u.tagged())
        for k, v in before.items():
            if k not in now or now[k] is not v:
                raise Violation('original-changed', '%s changed %s of %s' % (what, k[1], u.describe(k[0])))
        u.check_leaves()

    def adopt(self, m, ids, roots, what):
        e = self.universe(m.clone(), {})
        forget(e.m, ids)
        seen, todo = {}, list(roots)
        objs = {}
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen[id(o)] = o
            t = o.__dict__.get('tag')
            if t is not None:
                if t in objs and objs[t] is not o:
                    raise Violation('sharing-lost', 'two objects stand for %s after %s' % (e.describe(t) if t in e.m.n else t, what))
                objs[t] = o
            for n in o.dterms:
                c = o.__dict__.get(n)
                if hasattr(c, 'dterms'):
                    todo.append(c)
        for i in ids:
            if i not in objs:
                raise Violation('lost', '%s is missing after %s' % (e.describe(i), what))
        e.obj = {i: o for i, o in objs.items() if i in e.m.n}
        return e

    def apart(self, a, b, what):
        ida = {id(o) for o in a.tagged().values()}
        for t, o in b.tagged().items():
            if id(o) in ida:
                raise Violation('not-independent', '%s is the same object on both sides of %s' % (b.describe(t) if t in b.m.n else t, what))

    def x_copy(self, op):
        u, roots = self.take(op)
        before = self.settings(u.tagged())
        how = op['how']
        if how == 'copy':
            new = [u.call('copying', lambda: roots[0].copy())]
        elif how == 'copyf':
            new = [u.call('copying', lambda: self.W.ch.copy(roots[0]))]
        elif how == 'deepcopy':
            new = u.call('deepcopy', lambda: pycopy.deepcopy(roots))
        else:
            new = u.call('pickling', lambda: pickle.loads(pickle.dumps(roots, op['proto'])))
        self.stat('copies %s' % how)
        self.unchanged(u, before, 'copying')
        e = self.adopt(u.m, op['roots'], new, 'copying')
        self.apart(u, e, 'copying')
        self.us[op['to']] = e

    def x_save(self, op):
        u, roots = self.take(op)
        before = self.settings(u.tagged())
        fault = op.get('fault')
        f = File(fault, self.stat)
        ctl = self.W.user.ctl
        if fault and fault[0] == 'state':
            ctl.arm(fault[1], OSError)
        err = None
        try:
            pickle.dump(roots, f, op['proto'])
        except Exception as e:
            err = e
        finally:
            fired = ctl.fired if ctl.on else None
            ctl.off()
        if fired:
            self.stat('fault:node cannot be saved')
        self.stat('saves')
        if err is not None and not (fired or isinstance(err, OSError)):
            raise Violation('unexpected-exception', 'saving raised %s: %s' % (type(err).__name__, str(err)[:200]))
        self.unchanged(u, before, 'saving')
        if err is not None:
            self.stat('failed saves')
            if f.data:
                self.disk[op['name'] + '.part'] = Stored(f.data, None, op['roots'])
                self.refuse(f.data)
            return
        self.disk[op['name']] = Stored(f.data, u.m.clone(), list(op['roots']))

    def refuse(self, data):
        try:
            x = pickle.loads(data)
        except Exception:
            self.stat('truncated saves refused')
            return
        raise Violation('truncated-accepted', 'a truncated save of %d bytes loaded as %s' % (len(data), type(x).__name__))

    def x_loadcut(self, op):
        s = self.disk.get(op['name'])
        if s is None:
            raise Skip()
        self.stat('fault:truncated file')
        self.refuse(s.data[:int(op['cut'] * len(s.data))])

    def x_load(self, op):
        s = self.disk.get(op['name'])
        if s is None or s.m is None:
            raise Skip()
        e = self.universe(s.m, {})
        new = e.call('loading', lambda: pickle.loads(s.data))
        self.stat('loads')
        self.us[op['to']] = self.adopt(s.m, s.roots, new, 'loading')

    def x_lose(self, op):
        if op['u'] not in self.us:
            raise Skip()
        del self.us[op['u']]
        self.W.keep.collect()


class C10(GraphProp):
    id = 'C10'
    quick = (1120, 95.0)
    rule = 'runs in which a copy or a loaded graph was compared with the model, counted once per distinct program'
    stub = GraphProp.stub + ['disk (in memory; write errors, short writes, truncation)', 'process crash (new import, only the disk survives)']
    cfg = dict(leaves=(1, 3), nodes=(2, 7), dr=.3, edit=.6, gc=.2, editmix=[4, 3, 2, 2, 1, 1], without=['fresh'])

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 12))
        return {'seed': seed, 'prog': CopyGen(rng, cfg).program(), 'setorder': rng.random() < .4, 'ids': rng.random() < .4}

    def run(self, case):
        disk, stats = {}, {}
        segs = [[]]
        for op in case['prog']:
            if op['op'] == 'crash':
                segs.append([])
            else:
                segs[-1].append(op)
        for k, seg in enumerate(segs):
            c = dict(case, seed=case['seed'] + k)
            with self.world(c) as w:
                M = Multi(w, disk, stats)
                if k == 0:
                    M.us[0] = Exec(w, [])
                    M.us[0].stats = stats
                else:
                    M.stat('fault:crash')
                for n, op in enumerate(seg):
                    try:
                        M.step(op)
                    except Skip:
                        M.stat('skipped')
        return stats

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('how'), o.get('u'), o.get('proto'), o.get('fault')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('loads', 0) + sum(n for k, n in st.items() if k.startswith('copies')) > 0
