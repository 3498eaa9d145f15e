"""C16: what nobody refers to any more is released, and its disappearance goes unnoticed."""
import copy as pycopy
import pickle
import types

import numpy as np

from ..graph import Exec, Gen, Skip, Violation, forget
from ..kinds import KINDS
from ..opt import OptExec, OptGen
from .base import GraphProp
from .failures import FExec, FGen
from .rejects import RGen, RExec

QUIET = ('read', 'dr', 'node', 'copyread')


class LGen(OptGen, FGen, RGen):
    """History of everything that may leave a reference behind, with frequent dropping and collecting."""

    def __init__(self, rng, cfg):
        Gen.__init__(self, rng, cfg)

    def step(self):
        r, c = self.rng, self.cfg
        x = r.random()
        n0 = len(self.prog)
        if x < c['p_min']:
            done = self.add_min()
        elif x < .14:
            done = self.reject()
        elif x < .22:
            self.prog.append({'op': 'copyread', 'id': r.choice(self.held), 'how': r.choice('fmdp')})
            done = True
        elif x < .25:
            self.prog.append({'op': 'reload', 'how': r.choice('dp'), 'proto': r.randint(0, 5)})
            done = True
        elif x < .33 and len(self.held) > 2:
            done = self.lose()
        elif x < .42:
            self.prog.append({'op': 'gc', 'settle': r.random() < .6})
            done = True
        elif x < .51 and not c.get('kinds'):
            done = self.fail_probe()
        else:
            done = Gen.step(self)
        # an interrupt in the middle of what changes nothing
        for k in range(n0, len(self.prog)):
            op = self.prog[k]
            if op['op'] in QUIET and r.random() < c['intr']:
                self.prog[k] = {'op': 'intr', 't': op, 'exc': r.choice(['KeyboardInterrupt', 'MemoryError']),
                                'at': r.choice([1, 3, 8, 15, 30, 60, 100, 160, 250]) + r.randint(0, 12),
                                'retry': True, 'look': []}
        return done

    def fail_probe(self):
        r = self.rng
        t = {'op': 'read', 'id': r.choice(self.held), 'how': 'r'}
        self.prog.append({'op': 'fail', 't': t, 'src': 'probe', 'start': r.randint(1, 6), 'exc': r.choice(['ProbeFailure', 'MemoryError', 'ValueError']),
                          'gaps': [], 'look': []})
        return True

    def lose(self):
        """let go of several expressions at once, often all that depend on something"""
        r = self.rng
        i = r.choice(self.held)
        dep = set(self.m.dependents(i)) | {i}
        ids = [j for j in self.held if j in dep] if r.random() < .6 else r.sample(self.held, r.randint(1, len(self.held) - 1))
        if r.random() < .3:
            ids = [j for j in self.held if not self.m.isleaf(j)]
        keep = [j for j in self.held if j not in ids]
        if not ids or not keep:
            return False
        self.prog.append({'op': 'lose', 'ids': ids})
        self.held = keep
        forget(self.m, self.held)
        if r.random() < .5:
            self.prog.append({'op': 'gc', 'settle': r.random() < .6})
        return True

    def program(self):
        r = self.rng
        self.build()
        for _ in range(r.randint(*self.cfg['steps'])):
            self.step()
        self.prog.append({'op': 'gc', 'settle': True})
        self.prog.append({'op': 'sweep', 'dr': r.random() < .5, 'seed': r.randrange(1 << 30)})
        if r.random() < .5:
            self.prog.append({'op': 'lose', 'ids': [i for i in self.held if not self.m.isleaf(i)]})
            self.prog.append({'op': 'gc', 'settle': True})
        self.prog.append({'op': 'end'})
        return self.prog


class LExec(OptExec, FExec, RExec):
    def __init__(self, world, prog):
        Exec.__init__(self, world, prog)
        self.rnd, self.counts = 0, {}
        self.fr = self.solver = None

    def step(self, op):
        try:
            Exec.step(self, op)
        finally:
            self.fr = self.solver = self.mm = None

    def x_copyread(self, op):
        self.need(op['id'])
        if any(self.m.n[j].kind == 'fresh' for j in self.m.below(op['id']) if j in self.m.n):
            raise Skip()
        if op['how'] in 'fm':
            return Exec.x_copyread(self, op)
        o = self.obj[op['id']]
        if op['how'] == 'p' and any(self.m.n[j].kind == 'lambda' for j in self.m.below(op['id'])):
            raise Skip()
        f = pycopy.deepcopy if op['how'] == 'd' else (lambda x: pickle.loads(pickle.dumps(x, 2)))
        c = self.call('copy', f, o)
        self.stat('copies')
        self.check_value(op['id'], self.call('reading a copy', lambda: c.r), 'value of a copy')

    def x_reload(self, op):
        """Go on with copies of all expressions instead of the originals."""
        live = set()
        for i in self.obj:
            live |= self.m.below(i)
        if any(self.m.n[j].kind in ('fresh',) + (('lambda',) if op['how'] == 'p' else ()) for j in live):
            raise Skip()
        objs = [self.obj[i] for i in sorted(self.obj)]
        f = pycopy.deepcopy if op['how'] == 'd' else (lambda x: pickle.loads(pickle.dumps(x, op['proto'])))
        new = self.call('copying', f, objs)
        self.obj = dict(zip(sorted(self.obj), new))
        self.stat('reloads')

    def x_lose(self, op):
        ids = [i for i in op['ids'] if i in self.obj]
        if not ids or len(ids) == len(self.obj):
            raise Skip()
        # (a new dictionary: this interpreter's do not let go of what was deleted from them)
        self.obj = {i: o for i, o in self.obj.items() if i not in ids}
        forget(self.m, list(self.obj))
        self.stat('discarded', len(ids))

    def x_drop(self, op):
        Exec.x_drop(self, op)
        self.obj = {i: o for i, o in self.obj.items()}

    # ---- what may still be there
    def walk(self, deep):
        """ids of the expressions that held ones refer to: through their inputs, or through anything
        but caches and links to dependents."""
        seen, todo = {}, list(self.obj.values())
        C = self.ch.Ch
        names = ('_parents', '_cache', '_cache_info')
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            if isinstance(o, C):
                seen[id(o)] = True
                d = o.__dict__
                if deep:
                    todo.extend(v for k, v in d.items() if k not in names)
                else:
                    todo.extend(d.get(k) for k in list(o.dterms) + list(o.terms))
            elif isinstance(o, (list, tuple, set, frozenset)):
                seen[id(o)] = True
                todo.extend(o)
            elif isinstance(o, dict):
                seen[id(o)] = True
                todo.extend(o.keys())
                todo.extend(o.values())
            elif isinstance(o, types.FunctionType):
                seen[id(o)] = True
                todo.extend(c.cell_contents for c in (o.__closure__ or ()) if c is not None)
            elif isinstance(o, np.ndarray) and o.dtype == object:
                todo.extend(o.ravel().tolist())
        return seen

    def collect(self, rounds=2):
        # what an error inside numpy refers to takes this interpreter several rounds to free
        return self.W.keep.collect(rounds)

    def left(self):
        return [o for o in self.W.keep.objs if isinstance(o, self.ch.Ch)]

    def x_gc(self, op):
        if op.get('settle'):
            for i in list(self.obj):
                self.read(i)
        a, b = self.collect()
        reach = self.walk(True)
        lost = [o for o in self.left() if id(o) not in reach]
        if lost:
            lost = None
            self.collect(6)
            lost = [o for o in self.left() if id(o) not in reach]
        self.stat('collected', a - b)
        self.stat('collections')
        if lost:
            raise Violation('not-released', '%d expressions nobody refers to survive a collection: %s' % (
                len(lost), sorted('%s#%s' % (type(o).__name__, o.__dict__.get('tag')) for o in lost)[:6]))
        if op.get('settle'):
            reach = self.walk(False)
            live = set()
            for i in self.obj:
                live |= self.m.below(i)
            for o in self.left():
                t = o.__dict__.get('tag')
                if t is not None and t not in live and id(o) not in reach:
                    raise Violation('not-released', '%s#%s, discarded, survives a collection although no expression uses it as an input' % (type(o).__name__, t))

    def x_end(self, op):
        self.obj = {}
        forget(self.m, [])
        for k in (2, 6):
            a, b = self.collect(k)
            if not self.left():
                break
        self.stat('collected', a - b)
        if self.left():
            raise Violation('not-released', '%d expressions survive although everything was discarded: %s' % (
                len(self.left()), sorted('%s#%s' % (type(o).__name__, o.__dict__.get('tag')) for o in self.left())[:6]))
        self.stat('everything released')


class C16(GraphProp):
    id = 'C16'
    executor = LExec
    quick = (1120, 95.0)
    rule = 'runs in which discarded expressions were collected while others lived on, counted once per distinct program'
    cfg = dict(leaves=(1, 3), nodes=(2, 7), steps=(8, 22), dr=.4, edit=.5, gc=.2, drop=.05, p_min=.0, intr=.12,
               editmix=[3, 3, 3, 4, 2, 1.5, 1.5])

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 12), steps=(20, 50))
        if rng.random() < .3:
            from ..opt import SMOOTH
            cfg.update(kinds=SMOOTH, p_min=.12, steps=(5, 12))
        return {'seed': seed, 'prog': LGen(rng, cfg).program(), 'setorder': rng.random() < .3, 'ids': rng.random() < .4}

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('how'), o.get('at'), (o.get('t') or {}).get('op')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('discarded', 0) > 0 and st.get('collected', 0) > 0
