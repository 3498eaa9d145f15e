"""C05: an interrupt between any two lines of library code.

Each marked step of a program is first run undisturbed to count the lines of library
code it executes; then the program is run again with an exception raised at a seeded
one of those lines, the settings the library is left with are taken over into the
model (each must be the old or the new one), and the program goes on - with or
without a retry of the interrupted step."""
import numpy as np

from ..graph import (Exec, Gen, Violation, Skip, apply_model, dr_possible, arr, item_target, close, stored)
from ..kinds import KINDS, one_kind
from ..seams import place
from .base import GraphProp

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
WRAP = ('leaf', 'node', 'setx', 'setitem', 'setopt', 'rewire', 'read', 'dr', 'replace', 'dedup', 'copyread')
RATE = dict(leaf=.1, node=.3, setx=.4, setitem=.5, setopt=.6, rewire=.7, read=.3, dr=.4, replace=.7, dedup=.7, copyread=.7)


class IGen(Gen):
    def edit(self):
        if self.rng.random() < .06:
            self.prog.append({'op': 'copyread', 'id': self.rng.choice(self.held), 'how': self.rng.choice('fm')})
            return True
        return Gen.edit(self)

    def program(self, rounds=3):
        r = self.rng
        prog = Gen.program(self)
        out = []
        for op in prog:
            if op['op'] in WRAP and r.random() < RATE[op['op']] * self.cfg.get('rate', 1.):
                op = {'op': 'intr', 't': op, 'exc': r.choice(['KeyboardInterrupt'] * 3 + ['MemoryError']),
                      'fracs': [r.random() for _ in range(rounds)], 'retry': r.random() < (.65 if op['op'] in ('dr', 'read') else .4),
                      'look': [r.choice(self.held) for _ in range(r.randint(0, 2))]}
            out.append(op)
        return out


class IExec(Exec):
    def __init__(self, world, prog, rnd=None):
        Exec.__init__(self, world, prog)
        self.rnd = rnd          # None: count lines only
        self.counts = {}

    # -- which setting is in force?
    def same_setting(self, obj, nd, name, virtual=False):
        """Does obj's setting `name` agree with model node nd's?"""
        cur = stored(obj, name)
        if nd.kind == 'rollaxis' and name == 'start' and name not in obj.__dict__:
            cur = 0                     # filled in at the first use
        if name in nd.ins:
            c = nd.ins[name]
            if not hasattr(cur, 'dterms'):
                return False
            if self.mm.n[c].const:
                return cur.__dict__.get('tag') is None and np.array_equal(np.atleast_1d(np.asarray(cur.x)), np.atleast_1d(self.mm.n[c].data))
            if cur.__dict__.get('tag') == c:
                return True
            return virtual              # the builder looked through the old input
        v = self.optval(nd.kind, name, nd.o.get(name))
        try:
            return bool(np.array_equal(np.ravel(cur), np.ravel(v))) and (cur is None) == (v is None)
        except Exception:
            return False

    def adopt(self, op, m0, m1):
        """The model of what is in force after an interrupted edit, or None if that
        mixture has no value."""
        self.mm = m1
        kind = op['op']
        objs = self.tagged()
        if kind in ('setx', 'setitem'):
            leaf = [k for k in m0.n if m0.n[k].kind == 'leaf' and k in m1.n and m0.n[k].data is not m1.n[k].data]
            for k in leaf:
                if k not in objs:
                    continue
                x = np.atleast_1d(np.asarray(objs[k].x, dtype=np.float64))
                a, b = np.atleast_1d(m0.n[k].data), np.atleast_1d(m1.n[k].data)
                if x.shape == b.shape and close(x, b, 1e-12):
                    return m1
                if x.shape == a.shape and close(x, a, 1e-12):
                    return m0
                raise Violation('torn-setting', 'variable #%s holds %s, neither the old nor the new data' % (k, x.tolist()))
            return m0
        changes = {}
        for k, nd1 in m1.n.items():
            nd0 = m0.n.get(k)
            if nd0 is None or nd1.kind == 'leaf' or (nd0.ins == nd1.ins and nd0.o == nd1.o):
                continue
            if k not in objs:
                continue
            mix = nd0.clone()
            K = KINDS[nd1.kind]
            names = [n for n in nd1.ins if nd1.ins[n] != nd0.ins.get(n)]
            names += [n for n in nd1.o if nd1.o[n] != nd0.o.get(n) and n in K.settable]
            if not K.single or nd1.kind == 'lambda':
                return None             # inputs are wired to inner parts: only a retry settles it
            for n in names:
                if self.same_setting(objs[k], nd1, n):
                    if n in nd1.ins:
                        mix.ins[n] = nd1.ins[n]
                    else:
                        mix.o[n] = nd1.o[n]
                elif not self.same_setting(objs[k], nd0, n, (k, n) in m0.virtual):
                    raise Violation('torn-setting', '%s of %s is neither the old nor the new setting' % (n, self.describe(k)))
            if nd1.kind == 'select' and 'base' in nd1.o and mix.o.get('idxs') == nd1.o.get('idxs'):
                mix.o['base'] = nd1.o['base']
            changes[k] = mix
        mm = m1.clone()
        mm.virtual |= set((k, n) for k, n in m0.virtual if k in changes and changes[k].ins[n] == m0.n[k].ins[n])
        if changes and not mm.try_change(changes):
            return None
        return mm

    def x_intr(self, op):
        t = op['t']
        kind = t['op']
        if self.rnd is None:
            self.W.line.arm(None, None)
            try:
                self.step(t)
            finally:
                self.W.line.off()
                self.counts[self.k] = self.W.line.pick()
            return
        at = op.get('at')
        if at is None:
            N = self.counts.get(self.k)
            if not N or not N[0]:
                return self.step(t)
            at = place(N, op['fracs'][self.rnd])
            op['at_now'] = at
        m0 = self.m.clone()
        line = self.W.line
        line.arm(at, EXC[op['exc']])
        try:
            self.step(t)
        except Skip:
            line.off()
            raise
        except (KeyboardInterrupt, MemoryError):
            line.off()
            if line.fired is None:
                raise
        except Violation as v:
            # an interrupt turned into another exception, or a real mismatch
            line.off()
            if line.fired is None or v.cls != 'unexpected-exception':
                raise
        line.off()
        if line.fired is None:
            return
        self.stat('fault:interrupt in ' + kind)
        self.stat('at:' + line.fired)
        m1 = self.m
        retry = op['retry']
        if kind in ('leaf', 'node'):
            if t['id'] not in self.obj:
                self.m = m0
        elif kind in ('setx', 'setitem', 'setopt', 'rewire', 'replace'):
            mm = self.adopt(t, m0, m1)
            if mm is None:
                # the settings in force have no value; finish the edit
                self.m = m1
                self.call('repeating %s' % kind, getattr(self, 'do_' + kind), t)
                self.stat('forced retry')
                retry = False
            else:
                self.m = mm
        elif kind == 'dedup':
            if t['id'] in self.obj:
                self.adopt_wiring(t['id'])
        self.check_leaves()
        for i in op['look']:
            if i in self.obj:
                self.read(i)
        if retry:
            try:
                self.step(t)
            except Skip:
                pass


class C05(GraphProp):
    id = 'C05'
    quick = (900, 130.0)
    cfg = dict(without=['fresh'], dr=.35, sweepdr=.4, edit=.5, gc=.2, leaves=(1, 3), nodes=(2, 6), steps=(5, 14),
               editmix=[3, 3, 3, 4, 2, 1.5, 1.5], share=.03)
    rule = 'runs in which an interrupt was raised inside a library call and the program went on, counted once per distinct (program, interrupted lines)'
    sigrule = 'sha256 of the program shape and the functions in which its interrupts fired'

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        rounds = 4
        if tier == 'thorough':
            rounds = 8
            if rng.random() < .4:
                cfg.update(nodes=(4, 10), steps=(12, 30))
        if rng.random() < .4:
            # one operation, and what changes around it
            cfg.update(leaves=(1, 2), nodes=(1, 3), steps=(3, 9), focus=rng.randint(0, 2), favour=[one_kind(rng)],
                       study=.7, studysteps=(3, 7), dr=.6, sweepdr=.8, rate=1.5)
        return {'seed': seed, 'prog': IGen(rng, cfg).program(rounds), 'rounds': rounds}

    def run(self, case):
        import copy
        total = {}
        sigs = []
        if all('at' in o for o in case['prog'] if o['op'] == 'intr'):
            with self.world(case) as w:
                return IExec(w, case['prog'], 0).run()
        with self.world(case) as w:
            e = IExec(w, case['prog'], None)
            e.run()
        for k in range(case['rounds']):
            prog = copy.deepcopy(case['prog'])
            with self.world(case) as w:
                x = IExec(w, prog, k)
                x.counts = e.counts
                try:
                    st = x.run()
                except Violation as v:
                    for o in prog:
                        if o['op'] == 'intr':
                            o['at'] = o.pop('at_now', 10 ** 9)
                            o.pop('fracs', None)
                    v.case = {'seed': case['seed'], 'prog': prog, 'rounds': 1}
                    raise
            for a, b in st.items():
                total[a] = total.get(a, 0) + b
            from ..driver import h
            sigs.append(h([self.signature(case, st), sorted(a for a in st if a.startswith('at:')), k]))
        total['_sigs'] = sigs
        total['simulated executions'] = case['rounds'] + 1
        return total

    def smaller(self, case):
        from ..driver import smaller_prog
        for c in smaller_prog(case):
            yield c
        for i, o in enumerate(case['prog']):
            if o['op'] == 'intr':
                c = dict(case)
                c['prog'] = case['prog'][:i] + [o['t']] + case['prog'][i + 1:]
                yield c

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), (o.get('t') or {}).get('op')] for o in case['prog']]

    def nontrivial(self, case, st):
        return any(k.startswith('fault:') for k in st)
