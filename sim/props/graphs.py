"""C01, C02: histories of edits, reads, derivatives and collections against the model."""
from .base import GraphProp


class C01(GraphProp):
    id = 'C01'
    quick = (2240, 130.0)
    cfg = dict(dr=.12, sweepdr=.1, edit=.5, gc=.4, junk=.2, study=.2)

    def nontrivial(self, case, st):
        return st.get('values', 0) > 0 and any(o['op'] in ('setx', 'setitem', 'setopt', 'rewire') for o in case['prog'])


class C02(GraphProp):
    id = 'C02'
    quick = (2560, 130.0)
    cfg = dict(dr=.7, sweepdr=.9, edit=.4, gc=.35, junk=.1, study=.3)
    rule = 'runs in which a derivative that is not zero was compared after an edit, counted once per distinct program'

    def nontrivial(self, case, st):
        return st.get('nonzero derivatives', 0) > 0
