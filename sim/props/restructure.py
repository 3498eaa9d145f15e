"""C14: substitution and merging inside longer histories."""
from .base import GraphProp


class C14(GraphProp):
    id = 'C14'
    quick = (1280, 90.0)
    cfg = dict(dr=.45, sweepdr=.6, edit=.55, gc=.4, editmix=[4, 2, 2, 2, 5, 4, 4], share=.08, grow=.15)
    rule = 'runs in which something was substituted or merged and read afterwards, counted once per distinct program'

    def nontrivial(self, case, st):
        return bool(st.get('replaced') or st.get('merged'))
