"""What all properties share."""
from ..driver import smaller_prog, h
from ..graph import Exec, Gen
from ..kinds import KINDS, room
from ..seams import World, fresh, purge

COMMON_REAL = ['chumpy (all modules imported from the working tree)', 'numpy', 'scipy', 'interpreter garbage collector']
COMMON_STUB = ['time of collection (simulator holds every expression until a seeded step releases it)',
               'standard output and error (discarded)', 'clock (simulated)']
ASSUME = ['The reference model evaluates operations with NumPy and local derivatives by complex step, by linearity or in '
          'closed form; programs avoid points within a margin of kinks, ties and singularities.',
          'Arrays have at most 14 elements (in some runs of some properties 72) and expressions at most about 20 nodes.']


class Prop(object):
    id = None
    real = COMMON_REAL
    stub = COMMON_STUB
    assumptions = ASSUME
    quick = (1280, 95.0)
    thorough = (40000, 1500.0)
    rule = 'runs with at least one edit followed by an observation that depends on it, counted once per distinct program'
    sigrule = 'sha256 of the sequence of (step kind, operation kind) of the program'

    def budget(self, tier):
        return self.thorough if tier == 'thorough' else self.quick

    def warm(self):
        fresh()
        purge()

    def sample(self, case):
        s = dict(case)
        if 'prog' in s:
            s['prog'] = s['prog'][:12] + (['... %d more' % (len(s['prog']) - 12)] if len(s['prog']) > 12 else [])
        return s

    def size(self, case):
        return len(case.get('prog', []))

    def smaller(self, case):
        return smaller_prog(case)

    def signature(self, case, st):
        return [[o['op'], o.get('kind'), o.get('how'), o.get('mode')] for o in case['prog']]

    def nontrivial(self, case, st):
        return st.get('values', 0) + st.get('derivatives', 0) > 0


class GraphProp(Prop):
    """A program over one graph, run next to the model."""
    cfg = {}
    executor = Exec
    morph = .3
    big = .1

    def world(self, case):
        return World(case['seed'], clock=case.get('clock', 'steady'), setorder=case.get('setorder', False),
                     npfaults=case.get('npfaults', False), ids=case.get('ids', False))

    def generate(self, rng, seed, tier):
        cfg = dict(self.cfg)
        if tier == 'thorough' and rng.random() < .5:
            cfg.update(nodes=(4, 14), steps=(20, 60))
        if rng.random() < self.big:
            # arrays with more elements, in small expressions
            cfg.update(big=True, leaves=(1, 3), nodes=(1, 5), steps=(5, 16), study=0)
            with room(72):
                return {'seed': seed, 'prog': Gen(rng, cfg).program(), 'setorder': False, 'ids': rng.random() < .5, 'room': 72}
        if rng.random() < .12:
            # much construction, discarding and collection: addresses are reused
            cfg.update(grow=.4, drop=.3, gc=1., gcs=(2, 6), edit=.25,
                       focus=rng.randint(3, 6), favour=['fresh'] if rng.random() < .5 else [])
            return {'seed': seed, 'prog': Gen(rng, cfg).program(), 'setorder': False, 'ids': True}
        if rng.random() < self.morph:
            # one or two operations, whose inputs change shape again and again
            cfg.update(leaves=(1, 3), nodes=(1, 4), grow=.1, drop=.04, edit=.5, resize=.7, morph=.75, steps=(10, 26), cube=rng.choice([0, .4, .8]),
                       focus=rng.randint(0, 2), favour=[rng.choice(sorted(KINDS))])
        return {'seed': seed, 'prog': Gen(rng, cfg).program(), 'setorder': rng.random() < .5,
                'ids': rng.random() < .5}

    def run(self, case):
        with self.world(case) as w, room(case.get('room')):
            return self.executor(w, case['prog']).run()
