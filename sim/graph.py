"""Programs over expression graphs: generation (against the model only), execution
against chumpy, and the comparison of what chumpy reports with the model."""
import io

import numpy as np

from .kinds import KINDS, HINT, dec_key, rand_key, idx_of, rnd, MAXSIZE
from .model import Model, N


# shapes of arrays in programs that have room for them
BIG = [[20], [33], [40], [64], [5, 8], [8, 5], [6, 6], [4, 10], [1, 30], [30, 1], [20, 3], [2, 3, 6], [4, 4, 3], [3, 1, 11]]


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, '%s: %s' % (cls, detail))
        self.cls, self.detail = cls, detail


class Skip(Exception):
    """The step makes no sense in the current state (only after minimisation)."""


def arr(d):
    return np.array(d, dtype=np.float64)


VT, JT = 1e-8, 1e-6


def close(a, b, tol):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.max(np.abs(b)))))


def dense(J, n, m):
    """Normal form of a derivative as chumpy may report it."""
    import scipy.sparse as sp
    import scipy.sparse.linalg
    if J is None:
        return np.zeros((n, m))
    if isinstance(J, sp.linalg.LinearOperator):
        J = J.dot(np.eye(J.shape[1]))
    if sp.issparse(J):
        J = J.toarray()
    J = np.asarray(J, dtype=np.float64)
    if J.size == 1 and (n, m) != (1, 1):
        if n != m:
            raise Violation('derivative-shape', 'a single number for %d outputs and %d inputs' % (n, m))
        return float(J.ravel()[0]) * np.eye(n)
    if J.size == 1:
        return J.reshape((1, 1))
    if J.shape != (n, m):
        raise Violation('derivative-shape', 'shape %s instead of %s' % (J.shape, (n, m)))
    return J


# ====================================================================== model side of each step
def m_leaf(m, op):
    if op['id'] in m.n:
        return False
    return m.add(N(op['id'], 'leaf', data=arr(op['data'])))


def _in_ids(m, op, ins):
    out = {}
    for s, v in ins.items():
        if isinstance(v, dict):
            n = len(m.n)
            while 'c%s_%s_%d' % (op['id'], s, n) in m.n:
                n += 1
            cid = 'c%s_%s_%d' % (op['id'], s, n)
            m.n[cid] = N(cid, 'leaf', data=arr(v['c']), const=True)
            m.vals[cid] = np.atleast_1d(arr(v['c']))
            out[s] = cid
        else:
            if v not in m.n:
                return None
            out[s] = v
    return out


def m_node(m, op):
    if op['id'] in m.n:
        return False
    k = KINDS[op['kind']]
    before = set(m.n)
    ins = _in_ids(m, op, op['ins'])
    if ins is None:
        for c in set(m.n) - before:
            del m.n[c], m.vals[c]
        return False
    ok = m.add(N(op['id'], op['kind'], o=dict(op['o']), ins=ins))
    if not ok:
        for c in set(m.n) - before:
            m.n.pop(c, None)
            m.vals.pop(c, None)
        return False
    # builders that look through their inputs: those inputs keep their wiring from now on
    if op['kind'] in ('reshape', 'squeeze', 'expand_dims'):
        for c in m.chain(ins['a'])[:-1]:
            m.frozen.add(c)
        ik = m.n[ins['a']].kind
        if ik != 'leaf' and (ik in ('reshape', 'squeeze', 'expand_dims') or not KINDS[ik].single):
            m.virtual.add((op['id'], 'a'))
    if 'concat' in k.groups:
        for s, c in ins.items():
            if m.n[c].kind in KINDS and 'concat' in KINDS[m.n[c].kind].groups:
                m.virtual.update((op['id'], x) for x in ins)
                m.frozen.add(c)
                m.frozen.add(op['id'])
    if not k.single:
        m.frozen.add(op['id'])
    return True


def m_setx(m, op):
    nd = m.n.get(op['id'])
    if nd is None or nd.kind != 'leaf' or nd.const:
        return False
    new = nd.clone()
    new.data = arr(op['data'])
    return m.try_change({nd.id: new})


def item_target(m, i):
    """leaf, flat index map of node i's elements into the leaf (None: not assignable)"""
    base, P, inj = m.perm_base(i)
    if not inj or m.n[base].kind != 'leaf' or m.n[base].const:
        return None
    return base, P


def m_setitem(m, op):
    nd = m.n.get(op['id'])
    if nd is None or nd.const:
        return False
    t = item_target(m, op['id'])
    if t is None:
        return False
    base, P = t
    if m.vals[op['id']].shape != tuple(op['sh']):
        return False
    flat = np.arange(m.vals[op['id']].size).reshape(m.vals[op['id']].shape)
    sel = np.atleast_1d(flat[dec_key(op['key'])]).ravel()
    if sel.size == 0 or len(set(sel.tolist())) != sel.size:
        return False
    v = arr(op['value'])
    if v.size != sel.size:
        if v.size != 1:
            return False
        v = np.repeat(v.ravel(), sel.size)
    cur = np.array(m.vals[op['id']]).ravel()
    new = m.n[base].clone()
    d = np.atleast_1d(new.data).copy()
    shape = d.shape
    d = d.ravel()
    where = np.argmax(P, axis=1)
    d[where[sel]] = v.ravel()
    new.data = d.reshape(shape)
    return m.try_change({base: new})


def m_setopt(m, op):
    nd = m.n.get(op['id'])
    if nd is None or nd.kind == 'leaf' or op['id'] in m.frozen:
        return False
    new = nd.clone()
    new.o.update(op['o'])
    return m.try_change({nd.id: new})


def m_rewire(m, op):
    """ins: {slot: id or const}, o: options set in the same call"""
    nd = m.n.get(op['id'])
    if nd is None or nd.kind == 'leaf' or op['id'] in m.frozen or not KINDS[nd.kind].rewire:
        return False
    before = set(m.n)
    ins = _in_ids(m, op, op['ins'])
    if ins is None:
        ok = False
    else:
        new = nd.clone()
        new.ins.update(ins)
        new.o.update(op.get('o', {}))
        ok = m.try_change({nd.id: new})
    if not ok:
        for c in set(m.n) - before:
            m.n.pop(c, None)
            m.vals.pop(c, None)
        return False
    for s in ins:
        m.virtual.discard((nd.id, s))
    return True


def stored(o, name):
    """What an object holds as its input or option of this name."""
    return o.__dict__.get({'rt': 'v'}.get(name, name))


def wrt_ok(m, f, w, fresh):
    """Is the derivative of f w.r.t. w (a node; fresh: not part of any graph) unambiguous?"""
    if f == w:
        return m.isleaf(f)
    if m.n[f].kind == 'leaf':
        return m.n[w].kind == 'leaf'
    if w in m.blur:
        return False
    ch = m.chain(w)
    bf = m.below(f)
    if f in ch:
        return False
    for k in bf:
        # a concatenation of concatenations reads the inner one's inputs
        if m.n[k].kind in KINDS and 'concat' in KINDS[m.n[k].kind].groups:
            if any(c in ch and m.n[c].kind in KINDS and 'concat' in KINDS[m.n[c].kind].groups for c in m.n[k].ins.values()):
                return False
    if len(ch) == 1:
        return True
    base, P, inj = m.perm_base(w)
    if w in bf:
        # every path to the chain must go through w
        seen, todo = set(), [f]
        while todo:
            k = todo.pop()
            if k in seen or k == w:
                continue
            seen.add(k)
            if k in ch:
                return False
            todo.extend(m.n[k].ins.values())
        return True
    if not inj:
        return False
    # no node may read two different links of the chain directly
    for k in bf:
        if k in ch:
            continue
        refs = set(m.n[k].ins.values()) & set(ch)
        if len(refs) > 1:
            return False
    return True


def expected_dr(m, f, w):
    if w in m.below(f) or len(m.chain(w)) == 1:
        return m.deriv(f, w)
    base, P, inj = m.perm_base(w)
    return m.deriv(f, base).dot(P.T)


def replace_hits(m, root, old, new):
    """{node: slots} below root that read old directly (None: not possible here).
    What is substituted may itself be made from the old input: it stays as it is."""
    out = {}
    for k in m.below(root, new):
        nd = m.n[k]
        sl = [s for s, c in nd.ins.items() if c == old]
        if sl:
            if (k in m.frozen and KINDS[nd.kind].single) or k in m.fixed or any((k, s) in m.virtual for s in sl):
                return None
            out[k] = sl
    return out


def m_replace(m, op):
    root, old, new = op['id'], op['old'], op['new']
    if any(i not in m.n for i in (root, old, new)) or old == new or root == old:
        return False
    bn = m.below(new)
    if root in bn:
        return False
    hits = replace_hits(m, root, old, new)
    if not hits or any(k in bn for k in hits):
        return False
    ch = {}
    for k, sl in hits.items():
        nd = m.n[k].clone()
        for s_ in sl:
            nd.ins[s_] = new
        ch[k] = nd
    return m.try_change(ch)


MODEL_OPS = {'replace': m_replace, 'leaf': m_leaf, 'node': m_node, 'setx': m_setx, 'setitem': m_setitem,
             'setopt': m_setopt, 'rewire': m_rewire}


def apply_model(m, op):
    f = MODEL_OPS.get(op['op'])
    return True if f is None else f(m, op)


# ====================================================================== generation
class Gen(object):
    """Swarm-style: every run draws its own mix of operations, sizes and step kinds."""

    def __init__(self, rng, cfg=None):
        self.rng = rng
        self.m = Model()
        self.held = []          # ids the simulated user still references
        self.prog = []
        self.nid = 0
        self.cfg = dict(leaves=(1, 4), nodes=(2, 8), steps=(6, 24), gc=.5, dr=.25, resize=.12,
                        edit=.45, drop=.08, grow=.12, groups=None, probe=1.0, kinds=None,
                        constin=.2, readall=.2)
        if cfg:
            self.cfg.update(cfg)
        ks = list(KINDS.values())
        if self.cfg['kinds']:
            ks = [k for k in ks if k.name in self.cfg['kinds']]
        ks = [k for k in ks if k.name not in self.cfg.get('without', ())]
        # swarm: each run omits a random part of the operations
        keep = rng.choice([.35, .6, .9])
        ks2 = [k for k in ks if rng.random() < keep]
        self.kinds = ks2 if len(ks2) > 4 else ks
        if self.cfg.get('focus'):
            self.kinds = [k for k in ks if k.name in self.cfg['favour']] + rng.sample(ks, min(len(ks), self.cfg['focus']))
        self.w = [k.weight * (self.cfg['probe'] if 'probe' in k.groups else 1.0) for k in self.kinds]
        fav = self.cfg.get('favour')
        if fav:
            self.w = [max(w, 2.0) * 3 if k.name in fav else w for k, w in zip(self.kinds, self.w)]

    def new_id(self):
        self.nid += 1
        return self.nid

    def emit(self, op):
        if not apply_model(self.m, op):
            return False
        self.prog.append(op)
        return True

    def shape(self):
        r = self.rng
        if self.cfg.get('big') and r.random() < .6:
            return list(r.choice(BIG))
        c = r.random()
        if r.random() < self.cfg.get('cube', 0):
            c = 1.0
        if c < .15:
            return [1]
        if c < .5:
            return [r.randint(2, 5)]
        if c < .9:
            return r.choice([[2, 2], [2, 3], [3, 2], [3, 3], [1, 3], [3, 1], [2, 1], [1, 2], [2, 2], [3, 3], [4, 2], [1, 1]])
        return r.choice([[2, 2, 2], [1, 2, 3], [2, 1, 2], [2, 3, 1], [3, 2, 2], [2, 2, 3], [1, 1, 4]])

    def other_shape(self, sh):
        """another shape with as many elements"""
        n = int(np.prod(sh))
        c = [[n]] + [[a, n // a] for a in range(1, n + 1) if n % a == 0]
        c += [[a, b, n // (a * b)] for a in range(1, n + 1) for b in range(1, n + 1) if n % (a * b) == 0]
        c = [x for x in c if x != list(sh)]
        same = [x for x in c if len(x) == len(sh)]
        if same and self.rng.random() < .6:
            c = same
        return self.rng.choice(c) if c else list(sh)

    def data(self, sh):
        r = self.rng
        n = int(np.prod(sh))
        c = r.random()
        if c < .45:
            v = rnd(r, n, .15, 1.9)
        elif c < .9:
            v = rnd(r, n, -2, 2)
        else:
            v = rnd(r, n, .1, .9)
        return np.array(v).reshape(sh).tolist()

    def add_leaf(self, sh=None):
        sh = sh or self.shape()
        op = {'op': 'leaf', 'id': self.new_id(), 'data': self.data(sh),
              'form': self.rng.choice(['Ch', 'array', 'Ch'])}
        if self.emit(op):
            self.held.append(op['id'])
            return op['id']

    def pick(self, leaf=None, kinds=None):
        c = [i for i in self.held if (leaf is None or self.m.isleaf(i) == leaf)]
        return self.rng.choice(c) if c else None

    def pick_inputs(self, k):
        r = self.rng
        ids = []
        if k.name in HINT and r.random() < .7:
            for sh in HINT[k.name](r):
                c = [i for i in self.held if list(self.m.vals[i].shape) == sh]
                i = r.choice(c) if c and r.random() < .7 else self.add_leaf(sh)
                if i is None:
                    return None
                ids.append(i)
            return ids
        alike = r.random() < .35
        for n in range(len(k.slots)):
            c = [i for i in self.held if i not in ids and self.m.vals[i].shape == self.m.vals[ids[0]].shape] if ids and alike else None
            if c:
                ids.append(r.choice(c))
            elif ids and r.random() < .12:
                ids.append(ids[0])
            elif r.random() < .6 and len(self.held) > 4:
                ids.append(r.choice(self.held[-4:]))
            else:
                ids.append(r.choice(self.held))
        return ids

    def add_node(self, tries=30):
        r = self.rng
        for _ in range(tries):
            k = r.choices(self.kinds, self.w)[0]
            ids = self.pick_inputs(k)
            if ids is None:
                continue
            if len(ids) > 1 and r.random() < self.cfg.get('both', .1) and self.m.vals[ids[0]].shape == self.m.vals[ids[1]].shape:
                # one variable, directly and through something else
                op = {'op': 'node', 'id': self.new_id(), 'kind': r.choice(['sin', 'square', 'negative', 'cos']), 'o': {'f': 0},
                      'ins': {'x': ids[0]}}
                if self.emit(op):
                    self.held.append(op['id'])
                    ids[1] = op['id']
                    if r.random() < .5:
                        ids[0], ids[1] = ids[1], ids[0]
            ins = dict(zip(k.slots, ids))
            if len(k.slots) > 1 and ('bin' in k.groups or k.name == 'dot') and r.random() < self.cfg['constin']:
                s = r.choice(k.slots)
                other = [x for x in k.slots if x != s][0]
                osh = list(self.m.vals[ins[other]].shape)
                sh = osh if (r.random() < .6 and k.name != 'dot') else [1]
                if k.name != 'dot':
                    ins[s] = {'c': self.data(sh) if sh != [1] else rnd(r, 1, .2, 1.8)[0]}
            shs = [list(np.shape(v['c'])) if isinstance(v, dict) else list(self.m.vals[v].shape) for v in
                   [ins[s] for s in k.slots]]
            o = {'f': r.randint(0, 1)}
            if k.opts:
                o = k.opts(r, shs)
                if o is None:
                    continue
            if any(isinstance(v, dict) for v in ins.values()):
                o = dict(o, f=0)
            op = {'op': 'node', 'id': self.new_id(), 'kind': k.name, 'o': o, 'ins': ins}
            if self.emit(op):
                self.held.append(op['id'])
                return op['id']
        return None

    # ---- edits
    def e_setx(self, i=None):
        r = self.rng
        i = i or self.pick(leaf=True)
        if i is None:
            return False
        sh = list(self.m.vals[i].shape)
        form = r.choice(['arr'] * 8 + ['int', 'alias'])
        resize = r.random() < self.cfg['resize']
        for k in range(8):
            if resize:
                sh = self.other_shape(self.m.vals[i].shape) if r.random() < .5 else self.shape()
            d = self.data(sh)
            if r.random() < self.cfg.get('share', .05):
                same = [j for j in self.held if j != i and self.m.isleaf(j) and not self.m.n[j].const]
                if same:
                    form = 'share'
                    d = self.m.n[r.choice(same)].data.tolist()
            if form == 'int':
                d = np.round(np.array(d) * 3).tolist()
            if self.emit({'op': 'setx', 'id': i, 'data': d, 'form': form}):
                return True
            if r.random() < .2:
                resize, sh = False, list(self.m.vals[i].shape)
        return False

    def e_setitem(self):
        r = self.rng
        c = [i for i in self.held if item_target(self.m, i) is not None]
        if not c:
            return False
        i = r.choice(c)
        sh = list(self.m.vals[i].shape)
        for _ in range(6):
            key = rand_key(r, sh)
            idxs, ks = idx_of(key, sh)
            if not idxs:
                continue
            if r.random() < (.2 if self.m.isleaf(i) else .1):
                val = rnd(r, 1, .15, 1.9)[0]
            else:
                val = np.array(rnd(r, len(idxs), .15, 1.9)).reshape(ks).tolist()
            op = {'op': 'setitem', 'id': i, 'key': key, 'value': val, 'sh': sh}
            if r.random() < self.cfg.get('junk', 0):
                op['junk'] = r.choice(['nan', 'inf', 'big'])
            if self.emit(op):
                return True
        return False

    def e_setopt(self, i=None):
        r = self.rng
        c = [j for j in self.held if not self.m.isleaf(j) and KINDS[self.m.n[j].kind].settable
             and j not in self.m.frozen]
        if not c or (i is not None and i not in c):
            return False
        i = i or r.choice(c)
        nd = self.m.n[i]
        k = KINDS[nd.kind]
        shs = [list(self.m.vals[nd.ins[s]].shape) for s in k.slots]
        for _ in range(6):
            o = k.opts(r, shs)
            if o is None:
                continue
            names = list(k.settable)
            if k.name not in ('select', 'transpose') and len(names) > 1 and r.random() < .5:
                names = [r.choice(names)]
            ch = {n: o[n] for n in names}
            if k.name == 'select':
                ch['base'] = o['base']
            if all(nd.o.get(n) == ch[n] for n in names):
                continue
            if self.emit({'op': 'setopt', 'id': i, 'o': ch, 'via': r.choice(['attr', 'attr', 'set', 'set', 'call'])}):
                return True
        return False

    def e_rewire(self, i=None):
        r = self.rng
        c = [j for j in self.held if not self.m.isleaf(j) and KINDS[self.m.n[j].kind].rewire
             and j not in self.m.frozen]
        if not c or (i is not None and i not in c):
            return False
        i = i or r.choice(c)
        nd = self.m.n[i]
        k = KINDS[nd.kind]
        for _ in range(8):
            ns = r.randint(1, len(k.slots))
            ins = {}
            for s in r.sample(list(k.slots), ns):
                cur = self.m.vals[nd.ins[s]].shape
                same = [j for j in self.held if self.m.vals[j].shape == cur and j != nd.ins[s]]
                if same and r.random() < .8:
                    ins[s] = r.choice(same)
                elif r.random() < .2:
                    ins[s] = {'c': self.data(list(cur))}
                else:
                    ins[s] = r.choice(self.held)
            o = {}
            if k.settable and k.name not in ('select',) and r.random() < .25:
                try:
                    shs = [list(np.shape(ins[s]['c'])) if isinstance(ins.get(s), dict) else
                           list(self.m.vals[ins.get(s, nd.ins[s])].shape) for s in k.slots]
                    o = {n: v for n, v in (k.opts(r, shs) or {}).items() if n in k.settable}
                except Exception:
                    o = {}
            via = r.choice(['set', 'set', 'set', 'call']) if (len(ins) + len(o) > 1 or r.random() < .35) else 'attr'
            if self.emit({'op': 'rewire', 'id': i, 'ins': ins, 'o': o, 'via': via}):
                # collapsing builders look through a reshape/concat only at build time
                return True
        return False

    def e_replace(self):
        r = self.rng
        roots = [i for i in self.held if not self.m.isleaf(i)]
        for _ in range(8):
            if not roots:
                return False
            root = r.choice(roots)
            olds = [i for i in self.held if i in self.m.below(root) and i != root]
            if not olds:
                continue
            old = r.choice(olds)
            news = [i for i in self.held if self.m.vals[i].shape == self.m.vals[old].shape and i != old]
            if r.random() < .15:
                news = list(self.held)
            made = [i for i in news if i in self.m.n and old in self.m.below(i)]
            if made and r.random() < .3:
                news = made
            if not news:
                continue
            if self.emit({'op': 'replace', 'id': root, 'old': old, 'new': r.choice(news)}):
                return True
        return False

    def e_dedup(self):
        # (merging may identify part of what 'result' builds with an expression of the user's)
        roots = [i for i in self.held if not self.m.isleaf(i) and not any(self.m.n[j].kind == 'result' for j in self.m.below(i))]
        if not roots:
            return False
        self.prog.append({'op': 'dedup', 'id': self.rng.choice(roots)})
        return True

    def e_twin(self):
        """A second copy of an existing operation, and something that reads both."""
        r = self.rng
        c = [i for i in self.held if not self.m.isleaf(i) and KINDS[self.m.n[i].kind].single
             and KINDS[self.m.n[i].kind].name not in ('select', 'lambda')
             and all(not self.m.n[j].const for j in self.m.n[i].ins.values())]
        if not c:
            return False
        i = r.choice(c)
        nd = self.m.n[i]
        if i in self.m.frozen:
            return False
        op = {'op': 'node', 'id': self.new_id(), 'kind': nd.kind, 'o': dict(nd.o), 'ins': dict(nd.ins)}
        if not all(j in self.held for j in nd.ins.values()) or not self.emit(op):
            return False
        self.held.append(op['id'])
        k = r.choice(['add', 'multiply', 'subtract', 'vstack'])
        a, b = i, op['id']
        if r.random() < .5:
            a, b = b, a
        if r.random() < .5:
            wr = {'op': 'node', 'id': self.new_id(), 'kind': 'square', 'o': {'f': 0}, 'ins': {'x': b}}
            if self.emit(wr):
                self.held.append(wr['id'])
                b = wr['id']
        K = KINDS[k]
        if k not in KINDS:
            return True
        op2 = {'op': 'node', 'id': self.new_id(), 'kind': k, 'o': {'f': r.randint(0, 1)}, 'ins': dict(zip(K.slots, (a, b)))}
        if K.opts and k == 'vstack':
            op2['o'] = K.opts(r, [list(self.m.vals[j].shape) for j in (a, b)]) or {}
        if self.emit(op2):
            self.held.append(op2['id'])
        return True

    def edit(self):
        r = self.rng
        for _ in range(4):
            f = r.choices([self.e_setx, self.e_setitem, self.e_setopt, self.e_rewire, self.e_replace, self.e_dedup, self.e_twin],
                          (list(self.cfg.get('editmix', [4, 3, 2, 2])) + [0, 0, 0])[:7])[0]
            if f():
                return True
        return False

    # ---- observations
    def read(self, i=None):
        r = self.rng
        i = i or r.choice(self.held)
        return self.emit({'op': 'read', 'id': i, 'how': r.choice(
            ['r'] * 10 + ['shape', 'array', 'str', 'write', 'len', 'float', 'int', 'flat', 'clear', 'label'])})

    def dr(self):
        r = self.rng
        inner = [i for i in self.held if not self.m.isleaf(i)]
        for _ in range(8):
            f = r.choice(inner if inner and r.random() < .85 else self.held)
            if r.random() < .6:
                leaves = [i for i in self.held if self.m.isleaf(i) and i in self.m.below(f)] or self.held
                w = r.choice(leaves)
            else:
                w = r.choice(self.held)
            key = None
            if r.random() < .2 and self.m.vals[w].size > 1:
                key = rand_key(r, list(self.m.vals[w].shape))
                if not idx_of(key, self.m.vals[w].shape)[0]:
                    key = None
            op = {'op': 'dr', 'f': f, 'w': w, 'mode': r.choice(['fwd'] * 4 + ['rev', 'lop'])}
            if key:
                op['key'] = key
            if dr_possible(self.m, op):
                return self.emit(op)
        return False

    def drop(self):
        r = self.rng
        if len(self.held) < 3:
            return False
        i = r.choice(self.held)
        if self.m.isleaf(i) and r.random() < .6:
            return False
        self.prog.append({'op': 'drop', 'id': i})
        self.held.remove(i)
        forget(self.m, self.held)
        return True

    def gc(self):
        self.prog.append({'op': 'gc'})
        return True

    # ---- whole programs
    def build(self):
        r, c = self.rng, self.cfg
        for _ in range(r.randint(*c['leaves'])):
            self.add_leaf()
        if not self.held:
            self.add_leaf([3])
        for _ in range(r.randint(*c['nodes'])):
            self.add_node()
            if r.random() < .15:
                self.observe()

    def observe(self):
        if self.rng.random() < self.cfg['dr']:
            return self.dr() or self.read()
        return self.read()

    def morph(self):
        """something new for an operation under study, then a look at it"""
        r = self.rng
        c = [i for i in self.held if not self.m.isleaf(i) and self.m.n[i].kind in self.cfg['favour']]
        if not c:
            return self.add_node() is not None
        i = r.choice(c)
        x = r.random()
        leaves = [j for j in self.held if self.m.isleaf(j) and j in self.m.below(i)]
        if x < .65 and leaves:
            w = r.choice(leaves)
            self.e_setx(w)
        elif x < .8:
            self.e_setopt(i)
        else:
            self.e_rewire(i)
        if i not in self.m.n:
            return True
        up = [j for j in self.held if i in self.m.below(j)]
        down = [j for j in self.held if j in self.m.below(i) and j != i]
        f = i if r.random() < .7 else r.choice(up)
        if r.random() < self.cfg['dr'] and down:
            op = {'op': 'dr', 'f': f, 'w': r.choice(down), 'mode': r.choice(['fwd'] * 3 + ['rev', 'lop'])}
            if dr_possible(self.m, op):
                return self.emit(op)
        self.prog.append({'op': 'read', 'id': f, 'how': r.choice(['r', 'r', 'r', 'shape', 'array', 'write'])})
        return True

    def step(self):
        r, c = self.rng, self.cfg
        if c.get('morph') and r.random() < c['morph']:
            return self.morph()
        x = r.random()
        if x < c['edit']:
            return self.edit()
        x = r.random()
        if x < c['grow']:
            return self.add_node() is not None
        if x < c['grow'] + c['drop']:
            return self.drop()
        return self.observe()

    def study(self):
        """A short program about a single operation: change something, look, change, look."""
        r, c = self.rng, self.cfg
        ks = [k for k in KINDS.values() if k.name not in c.get('without', ()) and (not c['kinds'] or k.name in c['kinds'])]
        K = r.choice(ks)
        if K.groups & {'elem', 'logic'} and r.random() < .5:
            K = r.choice(ks)
        self.kinds, self.w = [K], [1.0]
        self.cfg = c = dict(c, cube=r.choice([0, .5, 1.]), grow=0., favour=[K.name], both=.4)
        i = None
        for _ in range(12):
            for _ in range(r.randint(1, 2)):
                self.add_leaf()
            if r.random() < .4 and self.held:
                self.kinds, self.w = [KINDS[x] for x in ('sin', 'square', 'add', 'reshape', 'transpose', 'multiply')], [1.] * 6
                self.add_node(3)
                self.kinds, self.w = [K], [1.0]
            i = self.add_node(4)
            if i is not None:
                break
        if i is None:
            return False
        if r.random() < .4:
            self.kinds, self.w = [KINDS[x] for x in ('sin', 'square', 'sum', 'reshape', 'negative')], [1.] * 5
            self.add_node(3)
            self.kinds, self.w = [K], [1.0]
        self.look(i)
        for _ in range(r.randint(*c.get('studysteps', (4, 12)))):
            x = r.random()
            leaves = [j for j in self.held if self.m.isleaf(j) and j in self.m.below(i)]
            if x < .35 and self.e_setopt(i):
                pass
            elif x < .8 and leaves:
                self.cfg = dict(c, resize=r.choice([0, .3, .8]))
                self.e_setx(r.choice(leaves))
                self.cfg = c
            elif x < .9:
                self.e_rewire(i)
            elif x < .95:
                self.step()
            else:
                self.gc()
            if i not in self.held:
                break
            self.look(i)
        self.prog.append({'op': 'sweep', 'dr': r.random() < c.get('sweepdr', .3), 'seed': r.randrange(1 << 30)})
        return True

    def look(self, i):
        r = self.rng
        up = [j for j in self.held if j in self.m.n and i in self.m.below(j)]
        f = r.choice(up)
        if r.random() < self.cfg['dr']:
            ws = [j for j in self.held if j != f and j in self.m.below(f)]
            if ws:
                op = {'op': 'dr', 'f': f, 'w': r.choice(ws), 'mode': r.choice(['fwd'] * 3 + ['rev', 'lop'])}
                if dr_possible(self.m, op) and self.emit(op):
                    return True
        return self.read(f)

    def program(self):
        r, c = self.rng, self.cfg
        if r.random() < c.get('study', 0) and self.study():
            return self.prog
        self.build()
        n = r.randint(*c['steps'])
        gcs = set()
        if r.random() < c['gc']:
            gcs = set(r.sample(range(n), min(n, r.randint(*c.get('gcs', (1, 2))))))
        for k in range(n):
            self.step()
            if k in gcs:
                self.gc()
        if r.random() < c['readall']:
            for i in list(self.held):
                self.prog.append({'op': 'read', 'id': i, 'how': 'r'})
        self.prog.append({'op': 'sweep', 'dr': r.random() < c.get('sweepdr', .3), 'seed': r.randrange(1 << 30)})
        return self.prog


def forget(m, held):
    """Nodes nobody can observe any more no longer constrain what may happen."""
    live = set()
    for i in held:
        live |= m.below(i)
    for k in list(m.n):
        if k not in live:
            del m.n[k]
            m.vals.pop(k, None)
    m.jc = {}


def dr_possible(m, op):
    f, w = op['f'], op['w']
    if f not in m.n or w not in m.n:
        return False
    if op.get('key'):
        sh = m.vals[w].shape
        try:
            idxs, ps = idx_of(op['key'], sh)
        except Exception:
            return False
        if not idxs or len(set(idxs)) != len(idxs):
            return False
        t = 'tmpw'
        m.n[t] = N(t, 'select', o={'idxs': idxs, 'preferred_shape': ps, 'base': list(sh)}, ins={'a': w})
        m.vals[t] = m.vals[w].ravel()[np.array(idxs)].reshape(ps if ps else (1,))
        try:
            return wrt_ok(m, f, t, True)
        finally:
            del m.n[t], m.vals[t]
            m.jc = {k: v for k, v in m.jc.items() if k[0] != t}
    return wrt_ok(m, f, w, False)


# ====================================================================== execution
class Exec(object):
    """Runs a program against chumpy and the model side by side."""

    def __init__(self, world, prog, faults=None):
        self.W, self.ch, self.prog = world, world.ch, prog
        self.m = Model()
        self.obj = {}
        self.log = []            # event log (determinism checks)
        self.stats = {}
        self.k = -1
        self.drseed = 12345
        self.called = None

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def run(self):
        for self.k, op in enumerate(self.prog):
            try:
                self.step(op)
            except Skip:
                self.stat('skipped')
        return self.stats

    def step(self, op):
        self.stat('op:' + op['op'])
        getattr(self, 'x_' + op['op'])(op)

    # ---- helpers
    def call(self, what, f, *a, **k):
        """A chumpy call that must not raise."""
        try:
            return f(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected-exception', '%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]))

    def inputs(self, ins):
        return {s: (arr(v['c']) if isinstance(v, dict) else self.obj[v]) for s, v in ins.items()}

    def optval(self, kind, n, v):
        if kind == 'select':
            return np.array(v, dtype=int) if n == 'idxs' else tuple(v)
        if n in ('mtx', 'image', 'M', 'N'):
            return np.array(v)
        if n in ('reps', 'axes', 'newshape'):
            return tuple(v) if isinstance(v, list) else v
        return v

    def opt_items(self, kind, o):
        return [(n, self.optval(kind, n, v)) for n, v in o.items() if n in KINDS[kind].settable]

    def need(self, *ids):
        for i in ids:
            if i not in self.obj or i not in self.m.n:
                raise Skip()

    # ---- steps
    def do_leaf(self, op):
        d = op['data']
        if op['form'] == 'Ch':
            return self.ch.Ch(arr(d))
        return self.ch.array(d)

    def x_leaf(self, op):
        if not apply_model(self.m, op):
            raise Skip()
        o = self.call('building a variable', self.do_leaf, op)
        o.__dict__['tag'] = op['id']
        self.obj[op['id']] = o

    def x_node(self, op):
        for v in op['ins'].values():
            if not isinstance(v, dict):
                self.need(v)
        if not apply_model(self.m, op):
            raise Skip()
        o = self.call('building %s' % op['kind'], KINDS[op['kind']].build, self.ch, self.inputs(op['ins']), op['o'])
        o.__dict__['tag'] = op['id']
        self.obj[op['id']] = o

    def do_setx(self, op):
        o = self.obj[op['id']]
        d = arr(op['data'])
        if op['form'] == 'share':
            # the very array object another variable holds
            for j, b in self.obj.items():
                if j != op['id'] and self.m.isleaf(j) and np.array_equal(np.asarray(b.x), d):
                    d = b.x
                    self.stat('shared arrays')
                    break
            o.x = d
            return
        if op['form'] == 'int':
            d = d.astype(int)
        o.x = d

    def junk(self, op):
        """The elements about to be assigned hold something useless before."""
        base, P = item_target(self.m, op['id'])
        flat = np.arange(self.m.vals[op['id']].size).reshape(self.m.vals[op['id']].shape)
        sel = np.atleast_1d(flat[dec_key(op['key'])]).ravel()
        o = self.tagged()[base]
        d = np.array(np.atleast_1d(o.x), dtype=np.float64, order='C')
        d.ravel()[np.argmax(P, axis=1)[sel]] = {'nan': np.nan, 'inf': np.inf, 'big': 1e18}[op['junk']]
        o.x = d
        self.stat('fault:junk %s' % op['junk'])

    def do_setitem(self, op):
        if op.get('junk'):
            self.junk(op)
        v = op['value']
        self.obj[op['id']][dec_key(op['key'])] = v if not isinstance(v, list) else np.array(v)

    def do_setopt(self, op):
        o = self.obj[op['id']]
        items = self.opt_items(self.m.n[op['id']].kind, op['o'])
        if op['via'] == 'set':
            o.set(**dict(items))
        elif op['via'] == 'call':
            self.called = o(**dict(items))
        else:
            for n, v in items:
                setattr(o, n, v)

    def do_rewire(self, op):
        o = self.obj[op['id']]
        items = list(self.inputs(op['ins']).items()) + self.opt_items(self.m.n[op['id']].kind, op.get('o', {}))
        if op['via'] == 'set':
            o.set(**dict(items))
        elif op['via'] == 'call':
            self.called = o(**dict(items))
        else:
            for n, v in items:
                setattr(o, n, v)

    def edit(self, op, f):
        self.need(op['id'])
        if op['op'] == 'rewire':
            for v in op['ins'].values():
                if not isinstance(v, dict):
                    self.need(v)
        if not apply_model(self.m, op):
            raise Skip()
        self.called = None
        self.call('%s' % op['op'], f, op)
        if self.called is not None and self.m.vals.get(op['id']) is not None:
            self.check_value(op['id'], self.called)

    def x_setx(self, op):
        self.edit(op, self.do_setx)

    def heal(self, op):
        """Leave an invalid state: the planned edit, or back to the old data."""
        try:
            self.step(op)
        except Skip:
            self.call('taking back data', setattr, self.obj[op['id']], 'x', np.array(self.m.n[op['id']].data))

    def x_setitem(self, op):
        self.edit(op, self.do_setitem)

    def x_setopt(self, op):
        self.edit(op, self.do_setopt)

    def x_rewire(self, op):
        self.edit(op, self.do_rewire)

    # ---- restructuring
    def do_replace(self, op):
        self.obj[op['id']].replace(self.obj[op['old']], self.obj[op['new']])

    def x_replace(self, op):
        self.need(op['id'], op['old'], op['new'])
        if self.m.fixed & (self.m.below(op['id']) | self.m.below(op['new'])):
            raise Skip()        # after merging: the model does not follow how these parts are connected
        made = op['old'] in self.m.below(op['new'])
        if not apply_model(self.m, op):
            raise Skip()
        self.stat('replaced')
        if made:
            self.stat('replaced by something made from it')
        self.call('replace', self.do_replace, op)

    def reachable(self, *roots):
        seen, todo = {}, list(roots)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen[id(o)] = o
            for n in o.dterms:
                c = o.__dict__.get(n)
                if hasattr(c, 'dterms'):
                    todo.append(c)
        return list(seen.values())

    def tagged(self, *roots):
        """{node id: object} of all objects reachable from roots (default: held objects)"""
        out = {}
        for o in self.reachable(*(roots or self.obj.values())):
            t = o.__dict__.get('tag')
            if t is not None:
                out[t] = o
        return out

    def adopt_wiring(self, root):
        """After merging: which of two equal parts an expression now reads is the library's
        choice.  Take over its choice after checking that it changes nothing."""
        m = self.m
        objs = self.tagged()        # a part that was merged into another one may itself have been changed
        changes, merged = {}, 0
        below = m.below(root)
        if any(m.n[k].kind in KINDS and not KINDS[m.n[k].kind].single for k in below):
            # parts inside composite operations may have been merged with visible ones:
            # from here on the wiring below root stays as it is
            m.frozen.update(k for k in below if not m.isleaf(k))
            m.fixed.update(m.frozen)
            # and which of several equal parts is read is not known
            m.blur.update(k for k in below if not m.isleaf(k))
            return
        for k in below:
            nd = m.n[k]
            if nd.kind == 'leaf' or k not in objs:
                continue
            for s_ in nd.ins:
                c = stored(objs[k], s_)
                if c is None or not hasattr(c, 'dterms'):
                    continue
                t = c.__dict__.get('tag')
                if t is None or t == nd.ins[s_] or t not in m.n or (k, s_) in m.virtual:
                    continue
                if m.isleaf(t) or m.isleaf(nd.ins[s_]):
                    raise Violation('wrong-merge', 'input %s of %s became variable #%s instead of #%s' % (s_, self.describe(k), t, nd.ins[s_]))
                if k in m.frozen:
                    continue
                changes.setdefault(k, nd.clone()).ins[s_] = t
                merged += 1
        if changes:
            before = dict(m.vals)
            if not m.try_change(changes) or any(not close(m.vals[k], before[k], 1e-9) for k in before):
                raise Violation('wrong-merge', 'merging replaced a part by one with another value below %s' % self.describe(root))
            self.stat('merged', merged)

    def x_dedup(self, op):
        self.need(op['id'])
        if self.m.isleaf(op['id']):
            raise Skip()
        self.call('remove_redundancy', self.obj[op['id']].remove_redundancy)
        self.adopt_wiring(op['id'])

    def x_copyread(self, op):
        self.need(op['id'])
        o = self.call('copy', self.ch.copy if op.get('how') == 'f' else (lambda x: x.copy()), self.obj[op['id']])
        self.stat('copies')
        self.check_value(op['id'], self.call('reading a copy', lambda: o.r), 'value of a copy')

    def x_drop(self, op):
        self.need(op['id'])
        if len(self.obj) < 2:
            raise Skip()
        del self.obj[op['id']]
        forget(self.m, list(self.obj))

    def x_gc(self, op):
        a, b = self.W.keep.collect()
        self.stat('collected', a - b)

    # ---- observations
    def describe(self, i):
        nd = self.m.n[i]
        return '%s#%s' % (nd.kind, i)

    def check_value(self, i, got, what='value'):
        exp = self.m.vals[i]
        got = np.asarray(got)
        self.stat('values')
        if got.shape != exp.shape:
            raise Violation('wrong-value', '%s of %s has shape %s, expected %s' % (what, self.describe(i), got.shape, exp.shape))
        if not np.all(np.isfinite(got)) or not close(got, exp, VT):
            raise Violation('wrong-value', '%s of %s is %s, expected %s' % (
                what, self.describe(i), np.array2string(got.ravel(), precision=6), np.array2string(exp.ravel(), precision=6)))

    def check_leaves(self):
        for i, o in self.obj.items():
            if self.m.n[i].kind == 'leaf':
                x = np.atleast_1d(np.asarray(o.x))
                if x.shape != np.atleast_1d(self.m.n[i].data).shape or not close(x.astype(float), np.atleast_1d(self.m.n[i].data), 1e-12):
                    raise Violation('input-changed', 'data of variable #%s is %s, expected %s' % (i, x.tolist(), self.m.n[i].data.tolist()))

    def read(self, i, how='r'):
        o = self.obj[i]
        exp = self.m.vals[i]
        if how == 'shape':
            s = self.call('shape', lambda: (tuple(o.shape), int(o.size), o.ndim))
            if s != (exp.shape, exp.size, exp.ndim):
                raise Violation('wrong-value', 'shape of %s is %s, expected %s' % (self.describe(i), s, exp.shape))
            self.stat('values')
        elif how == 'array':
            self.check_value(i, self.call('np.array()', lambda: np.array(o)))
        elif how == 'str':
            self.call('str()', str, o)
        elif how == 'len':
            if self.call('len()', len, o) != exp.shape[0]:
                raise Violation('wrong-value', 'len of %s' % self.describe(i))
        elif how == 'float' and exp.size == 1:
            self.check_value(i, np.array(self.call('float()', float, o)).reshape(exp.shape))
        elif how == 'int' and exp.size == 1:
            if abs(exp.ravel()[0] - np.round(exp.ravel()[0])) > 1e-3 and self.call('int()', int, o) != int(exp.ravel()[0]):
                raise Violation('wrong-value', 'int of %s' % self.describe(i))
        elif how == 'flat':
            self.call('repr()', repr, o)
            self.check_value(i, np.array(self.call('flat', lambda: list(o.flat))).reshape(exp.shape))
            if self.call('dtype', lambda: o.dtype) != np.float64:
                raise Violation('wrong-value', 'dtype of %s' % self.describe(i))
        elif how == 'clear':
            self.call('clear_cache()', o.clear_cache)
            self.check_value(i, self.call('reading %s' % self.describe(i), lambda: o.r))
        elif how == 'label':
            self.call('print_labeled_residuals()', lambda: o.print_labeled_residuals(where_to_print=io.StringIO()))
            self.check_value(i, self.call('reading %s' % self.describe(i), lambda: o.r))
        elif how == 'write':
            v = self.call('reading', lambda: o.r)
            try:
                v[(0,) * v.ndim] = 77.5
                raise Violation('writable-value', 'the value of %s could be written to' % self.describe(i))
            except ValueError:
                pass
            self.check_value(i, self.call('reading', lambda: o.r))
        else:
            self.check_value(i, self.call('reading %s' % self.describe(i), lambda: o.r))

    def x_read(self, op):
        self.need(op['id'])
        self.read(op['id'], op['how'])
        self.check_leaves()

    def do_dr(self, op):
        f = self.obj[op['f']]
        w = self.obj[op['w']]
        if op.get('key'):
            w = w[dec_key(op['key'])]
        if op['mode'] == 'lop':
            n = self.m.vals[op['f']].size
            L = np.random.RandomState(n).uniform(-1, 1, (2 if n > 1 else 1, n))
            return L, f.lop(w, L)
        return None, f.dr_wrt(w, reverse_mode=(op['mode'] == 'rev'))

    def check_dr(self, op, L, J):
        m = self.m
        f, w = op['f'], op['w']
        if op.get('key'):
            idxs, ps = idx_of(op['key'], m.vals[w].shape)
            base, P, inj = m.perm_base(w)
            S = np.zeros((len(idxs), m.vals[w].size))
            S[np.arange(len(idxs)), idxs] = 1.0
            exp = (m.deriv(f, base).dot(P.T) if len(m.chain(w)) > 1 else m.deriv(f, w)).dot(S.T)
        else:
            exp = expected_dr(m, f, w)
        n, mm = exp.shape
        if L is not None:
            if J is not None and np.size(J) == 1 and (L.shape[0], mm) != (1, 1):
                raise Violation('derivative-shape', 'left product of %s wrt %s is a single number' % (self.describe(f), self.describe(w)))
            exp = L.dot(exp)
            n = exp.shape[0]
        got = dense(J, n, mm)
        self.stat('derivatives')
        if exp.any():
            self.stat('nonzero derivatives')
        if not np.all(np.isfinite(got)) or not close(got, exp, JT):
            raise Violation('wrong-derivative', '%s of %s wrt %s%s is %s, expected %s' % (
                op['mode'], self.describe(f), self.describe(w), ' slice' if op.get('key') else '',
                'absent' if J is None else np.round(got, 5).tolist(), np.round(exp, 5).tolist()))

    def x_dr(self, op):
        self.need(op['f'], op['w'])
        if not dr_possible(self.m, op):
            raise Skip()
        L, J = self.call('%s derivative of %s wrt %s' % (op['mode'], self.describe(op['f']), self.describe(op['w'])), self.do_dr, op)
        self.check_dr(op, L, J)
        self.check_leaves()

    def x_sweep(self, op):
        import random
        r = random.Random(op['seed'])
        ids = list(self.obj)
        r.shuffle(ids)
        for i in ids:
            self.read(i)
        if op.get('dr'):
            fs = [i for i in ids if not self.m.isleaf(i)]
            ls = [i for i in ids if self.m.isleaf(i)]
            for f in fs[:4]:
                for w in ls[:3]:
                    o = {'f': f, 'w': w, 'mode': r.choice(['fwd', 'fwd', 'rev', 'lop'])}
                    L, J = self.call('%s derivative of %s' % (o['mode'], self.describe(f)), self.do_dr, o)
                    self.check_dr(o, L, J)
        self.check_leaves()
