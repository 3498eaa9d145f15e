"""C15: what user-defined nodes are told and when they are asked to compute."""
import numpy as np

from ..graph import Exec, Gen, Violation, Skip, item_target, dr_possible
from ..kinds import KINDS
from .base import GraphProp

WATCH = {'probe': {'slope': ('p', 'scale'), 'offset': ('q', 'shift')}, 'wrap': {}, 'gauge': {'scaled': ('a', 'level')}, 'flaky': {}}
PLAIN = ('probe', 'wrap', 'gauge', 'flaky', 'add', 'subtract', 'multiply', 'exp', 'sin', 'cos', 'negative')
TELLS = ('probe', 'wrap')
EDITS = ('setx', 'setitem', 'setopt', 'rewire', 'replace', 'dedup')
EXC = ['ProbeFailure', 'MemoryError', 'ValueError', 'KeyboardInterrupt']


class NGen(Gen):
    def step(self):
        r = self.rng
        if r.random() < .45:
            users = [i for i in self.held if any(self.m.n[j].kind in WATCH for j in self.m.below(i) if not self.m.isleaf(j))]
            if users:
                i = r.choice(users)
                ls = [j for j in self.held if self.m.isleaf(j) and j in self.m.below(i)]
                t = {'op': 'read', 'id': i, 'how': 'r'}
                if ls and r.random() < .4:
                    d = {'op': 'dr', 'f': i, 'w': r.choice(ls), 'mode': r.choice(['fwd', 'fwd', 'rev', 'lop'])}
                    if dr_possible(self.m, d):
                        t = d
                if r.random() < .45:
                    t = {'op': 'fail', 't': t, 'at': r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]), 'exc': r.choice(EXC)}
                self.prog.append(t)
                return True
        return Gen.step(self)

    def add_node(self, tries=30):
        if self.rng.random() < .55:
            return self.add_watch() or Gen.add_node(self, tries)
        return Gen.add_node(self, tries)

    def add_watch(self):
        r = self.rng
        k = KINDS[r.choices(['probe', 'wrap', 'gauge'], [4, 2, 2])[0]]
        i = r.choice(self.held)
        same = [j for j in self.held if self.m.vals[j].shape == self.m.vals[i].shape]
        ins = {s: r.choice(same) for s in k.slots}
        op = {'op': 'node', 'id': self.new_id(), 'kind': k.name, 'ins': ins,
              'o': k.opts(r, [list(self.m.vals[i].shape)] * len(k.slots))}
        if self.emit(op):
            self.held.append(op['id'])
            return op['id']


class State(object):
    """What the model knows about one user-defined node."""

    def __init__(self, names):
        self.names = set(names)
        self.must = set(names)       # changed, not yet told
        self.may = set(names)        # assigned (perhaps to what it was), not yet told
        self.fresh_r = False         # the value has been computed since the last change
        self.props = {}              # cached property -> computed since the last change of a dependency
        self.surplus = {}            # what -> how often it came without a change


class NExec(Exec):
    def __init__(self, *a):
        Exec.__init__(self, *a)
        self.st = {}
        self.ctl = self.W.user.ctl
        self.ctl.logging = True

    def x_read(self, op):
        # clearing caches by hand tells the nodes above, changed or not: nothing to judge here
        Exec.x_read(self, dict(op, how='r') if op['how'] == 'clear' else op)

    def exc(self, name):
        if name == 'ProbeFailure':
            from ..user import ProbeFailure
            return ProbeFailure
        return {'MemoryError': MemoryError, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt}[name]

    # ---- changes
    def shot(self):
        return {i: (dict(n.ins), {k: repr(v) for k, v in n.o.items()}, None if n.data is None else (n.data.shape, n.data.tobytes()))
                for i, n in self.m.n.items()}, {i: self.m.below(i) for i in self.m.n}

    def marks(self, op, before):
        """Returns {node: (names certainly changed, names assigned)}."""
        old, oldbelow = before
        now, below = self.shot()
        changed = {i for i in now if i not in old or now[i] != old[i]}
        assigned = set(changed)
        pairs = {}                   # node -> option or input names assigned directly
        i = op.get('id')
        if op['op'] == 'setx':
            assigned.add(i)
        elif op['op'] == 'setitem':
            assigned.add(item_target(self.m, i)[0])
        elif op['op'] in ('setopt', 'rewire'):
            assigned.add(i)
            pairs[i] = set(op.get('o', {})) | set(op.get('ins', {}))
        anything = op['op'] in ('replace', 'dedup')
        out = {}
        for k in self.st:
            if k not in now:
                continue
            must, may = set(), set(pairs.get(k, ()))
            if k in old:
                must |= {n for n in now[k][1] if now[k][1][n] != old[k][1].get(n)}
                must |= {s for s in now[k][0] if now[k][0][s] != old[k][0].get(s)}
            for s, c in now[k][0].items():
                if below[c] & changed:
                    must.add(s)
                if below[c] & assigned:
                    may.add(s)
            must &= self.st[k].names
            may = (may | must) & self.st[k].names
            if anything:
                may = set(self.st[k].names)
                if op['op'] == 'dedup':
                    must = set()     # equal parts: whether one counts as changed is not specified
            out[k] = must, may
        return out

    def touch(self, marks, final):
        for k, (must, may) in marks.items():
            s = self.st[k]
            s.may |= may
            if final:
                s.must |= must
            if may:
                s.fresh_r = False
                s.surplus = {}
            kind = self.m.n[k].kind if k in self.m.n else None
            for p, deps in WATCH.get(kind, {}).items():
                if may & set(deps):
                    s.props[p] = False

    # ---- the log of one step
    def digest(self, failed):
        log, self.ctl.log = self.ctl.log, []
        before = {k: (s.fresh_r, dict(s.props)) for k, s in self.st.items()}
        slack = {}
        for tag, what, info in log:
            s = self.st.get(tag)
            if s is None or tag not in self.m.n:
                continue
            d = self.describe(tag)
            if tag not in slack:
                slack[tag] = self.slack(tag)
            most, lazy = slack[tag]
            if what == 'on_changed:enter':
                self.stat('notifications')
                extra = set(info) - s.may
                s.surplus['told'] = s.surplus.get('told', 0) + bool(extra)
                if extra - lazy or not info or s.surplus['told'] > most:
                    raise Violation('spurious-notification', '%s was told of %s although %s' % (
                        d, sorted(info), 'nothing changed' if not s.may else 'only %s changed' % sorted(s.may)))
            elif what == 'on_changed:exit':
                s.must -= set(info)
                s.may -= set(info)
            if what in ('compute_r', 'compute_dr_wrt', 'slope', 'offset', 'scaled'):
                self.stat('computations')
                if s.must and self.m.n[tag].kind in TELLS:
                    raise Violation('missing-notification', '%s computed (%s) without having been told that %s changed' % (d, what, sorted(s.must)))
                if what == 'compute_r':
                    if s.fresh_r and self.more(s, what) > most:
                        raise Violation('needless-computation', 'the value of %s was computed although nothing it depends on has changed' % d)
                    s.fresh_r = True
                elif what != 'compute_dr_wrt':
                    if s.props.get(what) and (not lazy & set(WATCH[self.m.n[tag].kind][what]) or self.more(s, what) > most):
                        raise Violation('needless-computation', 'the cached property %s of %s was computed although none of its dependencies has changed' % (what, d))
                    s.props[what] = True
        if failed:
            # what was under way may not have been completed
            for k, (r, p) in before.items():
                s = self.st[k]
                s.fresh_r = s.fresh_r and r
                s.props = {n: v and p.get(n, False) for n, v in s.props.items()}
                s.surplus = {}

    def step(self, op):
        if op.get('via') == 'call':
            self.step(dict(op, via='set'))
            return self.step({'op': 'read', 'id': op['id'], 'how': 'r'})
        self.stat('op:' + op['op'])
        self.ctl.log = []
        before = self.shot() if op['op'] in EDITS else None
        if op['op'] == 'node' and op['kind'] in WATCH:
            k = KINDS[op['kind']]
            self.st[op['id']] = State(set(k.slots) | set(k.settable))
        try:
            getattr(self, 'x_' + op['op'])(op)
        except Skip:
            if op['op'] == 'node' and op['id'] not in self.obj:
                self.st.pop(op['id'], None)
            self.digest(False)
            raise
        if before is not None:
            m = self.marks(op, before)
            self.touch(m, False)
            self.digest(False)
            self.touch(m, True)
        else:
            self.digest(False)

    @staticmethod
    def more(s, what):
        s.surplus[what] = s.surplus.get(what, 0) + 1
        return s.surplus[what]

    def slack(self, k):
        """How many surplus notifications (or computations) a node may receive per change, and for which
        inputs.  A library operation above its own inner expression brings that expression up to date when
        it is first used, which may count as one more change of the operation; every such operation below
        can do so once per change, then it has settled.  With plain operations below there is no surplus."""
        n, names = 0, set()
        for s, c in self.m.n[k].ins.items():
            b = [j for j in self.m.below(c) if not self.m.isleaf(j) and self.m.n[j].kind not in PLAIN]
            if b:
                names.add(s)
                n = max(n, len(b))
        return 2 * n, names

    def x_fail(self, op):
        t = op['t']
        if t['op'] == 'read':
            self.need(t['id'])
            f = lambda: self.obj[t['id']].r
        else:
            self.need(t['f'], t['w'])
            if not dr_possible(self.m, t):
                raise Skip()
            f = lambda: self.do_dr(t)
        exc = self.exc(op['exc'])
        self.ctl.arm(op['at'], exc)
        failed = True
        try:
            f()
            failed = False
        except BaseException as e:
            if self.ctl.fired is None or not isinstance(e, exc):
                if isinstance(e, Exception):
                    raise Violation('unexpected-exception', '%s: %s' % (type(e).__name__, str(e)[:200]))
                raise
            self.stat('fault:%s in %s' % (op['exc'], self.ctl.fired))
        finally:
            self.ctl.off()
        self.digest(failed)

    def x_gc(self, op):
        Exec.x_gc(self, op)

    def x_drop(self, op):
        Exec.x_drop(self, op)
        for k in list(self.st):
            if k not in self.m.n:
                del self.st[k]


class C15(GraphProp):
    id = 'C15'
    executor = NExec
    quick = (1600, 95.0)
    cfg = dict(dr=.3, sweepdr=.4, edit=.6, gc=.3, probe=2., steps=(10, 28), leaves=(1, 3), nodes=(3, 8), editmix=[4, 3, 5, 3, 1, 1])
    rule = 'runs in which a user-defined node was notified and computed after an edit, counted once per distinct program'

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 14), steps=(20, 60))
        return {'seed': seed, 'prog': NGen(rng, cfg).program(), 'setorder': rng.random() < .5, 'ids': rng.random() < .4}

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('at'), o.get('exc'), o.get('mode'), (o.get('t') or {}).get('op')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('notifications', 0) > 0 and st.get('computations', 0) > 0
