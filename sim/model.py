"""Executable reference model of an expression graph.

State is plain data: per node its kind, options, inputs, or its array.  A value is
computed from scratch whenever something changed, so there is no cache logic in
here that could share a mistake with the code under test.
"""
import numpy as np
from .kinds import LIMIT, KINDS, evaluate, local_jac, select_injective, A


class N(object):
    __slots__ = ('id', 'kind', 'o', 'ins', 'data', 'const')

    def __init__(self, id, kind, o=None, ins=None, data=None, const=False):
        self.id, self.kind, self.o, self.ins, self.data, self.const = id, kind, o or {}, ins or {}, data, const

    def clone(self):
        return N(self.id, self.kind, dict(self.o), dict(self.ins), self.data, self.const)


class Model(object):
    def __init__(self):
        self.n = {}
        self.vals = {}
        self.jc = {}
        self.virtual = set()     # (id, slot): the builder looked through the given input
        self.fixed = set()       # as frozen, and not open to substitution either
        self.blur = set()        # ids which may have been merged with others, unknown to the model
        self.frozen = set()      # ids whose inputs/options must stay (see kinds: collapsing builders)

    def clone(self):
        m = Model()
        m.n = {k: v.clone() for k, v in self.n.items()}
        m.vals = dict(self.vals)
        m.frozen = set(self.frozen)
        m.fixed = set(self.fixed)
        m.blur = set(self.blur)
        m.virtual = set(self.virtual)
        return m

    # ---- structure
    def isleaf(self, i):
        return self.n[i].kind == 'leaf'

    def below(self, i, but=None):
        """ids reachable from i through inputs (not through "but"), including i"""
        seen, todo = set(), [i]
        while todo:
            k = todo.pop()
            if k in seen or k == but:
                continue
            seen.add(k)
            todo.extend(self.n[k].ins.values())
        return seen

    def dependents(self, i):
        """ids (including i) that depend on i, in evaluation order"""
        out, mark = [], {}

        def visit(k):
            if k in mark:
                return mark[k]
            mark[k] = k == i
            for c in self.n[k].ins.values():
                if visit(c):
                    mark[k] = True
            if mark[k]:
                out.append(k)
            return mark[k]
        for k in self.n:
            visit(k)
        return out

    # ---- values
    def ins_of(self, nd):
        return [self.vals[nd.ins[s]] for s in KINDS[nd.kind].slots]

    def value_of(self, nd):
        if nd.kind == 'leaf':
            return A(np.array(nd.data, dtype=np.float64))
        return evaluate(KINDS[nd.kind], nd.o, self.ins_of(nd))

    def add(self, nd):
        """Adds a node if it has a value; returns False (and adds nothing) otherwise."""
        v = self.value_of(nd)
        if v is None or v.size > LIMIT[0]:
            return False
        self.n[nd.id] = nd
        self.vals[nd.id] = v
        return True

    def try_change(self, changes, need=None):
        """changes: {id: new N}.  Applies them if every affected node keeps a value
        (need: ids for which that matters; default all).  Returns True if applied."""
        old_n = {i: self.n[i] for i in changes}
        old_v = dict(self.vals)
        self.n.update(changes)
        # cycle check
        for i in changes:
            for c in self.n[i].ins.values():
                if i in self.below(c):
                    self.n.update(old_n)
                    return False
        order, seen = [], set()
        for i in changes:
            for k in self.dependents(i):
                if k not in seen:
                    seen.add(k)
        for k in self.topo():
            if k in seen:
                v = self.value_of(self.n[k])
                if v is None or v.size > LIMIT[0]:
                    self.n.update(old_n)
                    self.vals = old_v
                    return False
                self.vals[k] = v
        self.jc = {}
        return True

    def force(self, data):
        """Set leaf data whatever it does to the values; values outside the domain are None."""
        for i, d in data.items():
            nd = self.n[i].clone()
            nd.data = np.array(d, dtype=np.float64)
            self.n[i] = nd
        for k in self.topo():
            nd = self.n[k]
            if nd.kind != 'leaf' and any(self.vals.get(c) is None for c in nd.ins.values()):
                self.vals[k] = None
            else:
                self.vals[k] = self.value_of(nd)
        self.jc = {}
        return all(self.vals[k] is not None for k in self.n)

    def topo(self):
        out, seen = [], set()

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            for c in self.n[k].ins.values():
                visit(c)
            out.append(k)
        for k in self.n:
            visit(k)
        return out

    # ---- derivatives
    def _lj(self, i, slot_idx):
        key = (i, slot_idx)
        if key not in self.jc:
            nd = self.n[i]
            self.jc[key] = local_jac(KINDS[nd.kind], nd.o, self.ins_of(nd), slot_idx, self.vals[i])
        return self.jc[key]

    def deriv(self, f, w, memo=None):
        """d f / d w with w treated as independent (paths stop at w)."""
        if memo is None:
            memo = {}
        if f == w:
            return np.eye(self.vals[f].size)
        if f in memo:
            return memo[f]
        nd = self.n[f]
        J = np.zeros((self.vals[f].size, self.vals[w].size))
        if nd.kind != 'leaf':
            for k, s in enumerate(KINDS[nd.kind].slots):
                c = nd.ins[s]
                D = self.deriv(c, w, memo)
                if D is not None and D.any():
                    J = J + self._lj(f, k).dot(D)
        memo[f] = J
        return J

    # rearrangement chains: y = perm(perm(base))
    def perm_base(self, i):
        """(base id, matrix d i/d base, injective) following rearranging nodes."""
        inj = True
        P = np.eye(self.vals[i].size)
        while self.n[i].kind in KINDS and 'reorder' in KINDS[self.n[i].kind].groups:
            nd = self.n[i]
            k = KINDS[nd.kind]
            if not k.perm and nd.kind not in ('fliplr', 'flipud', 'squeeze', 'expand_dims'):
                inj = False
            if nd.kind == 'select' and not select_injective(nd.o):
                inj = False
            P = P.dot(self._lj(i, 0))
            i = nd.ins['a']
        return i, P, inj

    def chain(self, i):
        """ids on the rearranging chain from i down to its base, inclusive"""
        out = [i]
        while self.n[i].kind in KINDS and 'reorder' in KINDS[self.n[i].kind].groups:
            i = self.n[i].ins['a']
            out.append(i)
        return out
