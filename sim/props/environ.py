"""C12: the same program in two environments: an ordinary one, and one with another
clock, another set order, diagnostics on, and diagnostic output that fails."""
import builtins
import io
import os
import sys
import time

import numpy as np

from ..graph import Gen, Violation, Skip
from ..opt import OptGen
from ..seams import World
from .base import Prop, COMMON_REAL, COMMON_STUB, ASSUME
from .threads import TExec, TGen

ERRS = {'ENOSPC': lambda: OSError(28, 'No space left on device (simulated)'),
        'EPIPE': lambda: BrokenPipeError(32, 'Broken pipe (simulated)'),
        'closed': lambda: ValueError('I/O operation on closed file (simulated)'),
        'encoding': lambda: UnicodeEncodeError('ascii', u'\xfc', 0, 1, 'simulated'),
        'EACCES': lambda: PermissionError(13, 'Permission denied (simulated)')}


class DiagIO(object):
    """Where diagnostics go: standard streams and files, any operation of which can fail."""

    def __init__(self):
        self.n, self.at, self.err, self.fired, self.what = 0, None, None, None, None
        self.files, self.chars, self.ops = {}, 0, 0
        self.torn = False

    def arm(self, f):
        self.n, self.fired = 0, None
        self.at, self.err, self.what = f['at'], f['err'], f['what']

    def off(self):
        self.at = None
        return self.fired

    def hit(self, what):
        self.ops += 1
        if self.at is not None and (self.what == 'any' or what == self.what):
            self.n += 1
            if self.n == self.at:
                self.fired = what
                raise ERRS[self.err]()

    # streams
    def write(self, s):
        self.hit('stream')
        self.chars += len(s)
        return len(s)

    def flush(self):
        self.hit('stream')

    def isatty(self):
        return False

    # files
    def open(self, fn, mode='r', *a, **k):
        if not isinstance(fn, str) or not ('w' in mode or 'a' in mode):
            return builtins.open(fn, mode, *a, **k)
        self.hit('open')
        f = SimFile(self, fn)
        self.files[fn] = f
        return f

    def memory(self):
        self.hit('memory')


class SimFile(object):
    def __init__(self, io, name):
        self.io, self.name, self.data = io, name, []

    def write(self, s):
        self.io.hit('file')
        self.data.append(s)
        return len(s)

    def flush(self):
        self.io.hit('file')

    def close(self):
        self.io.hit('file')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class EGen(TGen):
    def program(self):
        r, c = self.rng, self.cfg
        self.build()
        n = r.randint(*c['steps'])
        for _ in range(n):
            x = r.random()
            if x < .12:
                self.diag()
            elif x < .18:
                self.prog.append({'op': 'show', 'id': r.choice(self.held), 'w': r.choice(self.held),
                                  'how': r.choice(['tree', 'wrt', 'cache', 'labels', 'iter']), 'io': self.iofault()})
            elif x < .26:
                if self.tmin():
                    self.prog[-1]['io'] = self.iofault()
            else:
                k = len(self.prog)
                self.step()
                for op in self.prog[k:]:
                    if op['op'] in ('read', 'dr') and r.random() < .4:
                        op['io'] = self.iofault()
            if r.random() < .05:
                self.gc()
        if r.random() < .6 and self.tmin():
            self.prog[-1]['io'] = self.iofault()
        self.prog.append({'op': 'sweep', 'dr': True, 'seed': r.randrange(1 << 30)})
        return self.prog

    def diag(self):
        r = self.rng
        self.prog.append({'op': 'diag', 'DEBUG': r.random() < .6, 'VERBOSE': r.random() < .6})

    def iofault(self):
        r = self.rng
        if r.random() < .5:
            return None
        return {'what': r.choice(['any', 'any', 'stream', 'open', 'file', 'memory']), 'at': r.choice([1, 1, 2, 3, 5, 8, 20, 60]),
                'err': r.choice(sorted(ERRS))}


class EExec(TExec):
    """plain: the ordinary environment; otherwise diagnostics as the program says."""
    plain = True

    def step(self, op):
        self.stat('op:' + op['op'])
        f = None if self.plain else op.get('io')
        if not f:
            return getattr(self, 'x_' + op['op'])(op)
        io = self.W.io
        io.arm(f)
        data = None
        try:
            getattr(self, 'x_' + op['op'])(op)
        except Violation as v:
            fired = io.off()
            if not (fired and v.cls == 'unexpected-exception'):
                raise
            self.stat('diagnostics failed: error')
            if op['op'] == 'tmin':
                self.restore(self.d0)
        except Skip:
            raise
        finally:
            fired = io.off()
            if fired:
                self.stat('fault:%s %s' % (fired, f['err']))
        self.check_leaves()

    def x_diag(self, op):
        if self.plain:
            return
        c = sys.modules['chumpy.ch']
        c.DEBUG, c.VERBOSE = op['DEBUG'], op['VERBOSE']
        self.stat('diagnostics on' if op['DEBUG'] or op['VERBOSE'] else 'diagnostics off')

    def x_show(self, op):
        """Whatever a display function does, it changes no result."""
        if self.plain:
            return
        self.need(op['id'], op['w'])
        o, w = self.obj[op['id']], self.obj[op['w']]
        try:
            if op['how'] == 'tree':
                o.show_tree()
            elif op['how'] == 'wrt':
                o.show_tree_wrt(w)
            elif op['how'] == 'cache':
                o.show_tree_cache('label')
            elif op['how'] == 'labels':
                object.__setattr__(o, 'label', 'node')
                o.print_labeled_residuals()
            else:
                list(o.tree_iterator())
        except Exception as e:
            self.stat('display raised %s' % type(e).__name__)
        self.stat('displays')

    def x_tmin(self, op):
        self.d0 = self.leaf_data()
        TExec.x_tmin(self, op)

    def restore(self, d0):
        """after a failed minimization: consistent where it stopped, then back"""
        self.consistent(list(self.obj), 'after failed output')
        objs = self.tagged()
        for i, d in d0.items():
            if i in objs and not np.array_equal(np.atleast_1d(objs[i].x), d):
                self.call('setx', setattr, objs[i], 'x', d.copy())
        self.m.force(d0)


class Diag(World):
    """A world with diagnostics under control."""

    def __init__(self, seed, **k):
        self.io = DiagIO()
        self.undo = []
        World.__init__(self, seed, **k)
        import pdb
        import psutil
        import subprocess
        import tempfile
        import webbrowser
        sys.stdout = sys.stderr = self.io
        import chumpy.monitor
        for m in self.mods + [chumpy.monitor]:
            m.__dict__['open'] = self.io.open
        io = self.io

        class P(object):
            def __init__(self, *a):
                io.memory()

            def memory_info(self):
                return (1 << 26, 1 << 27)

        def ntf(*a, **k):
            io.hit('open')
            return SimFile(io, 'tmp')

        def nothing(*a, **k):
            return 0
        self.swap(psutil, 'Process', P)
        self.swap(tempfile, 'NamedTemporaryFile', ntf)
        self.swap(subprocess, 'call', nothing)
        self.swap(webbrowser, 'open', nothing)
        self.swap(pdb, 'post_mortem', nothing)
        self.swap(pdb, 'set_trace', nothing)

    def swap(self, o, n, v):
        self.undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def close(self):
        for o, n, v in self.undo:
            setattr(o, n, v)
        self.undo = []
        World.close(self)


class C12(Prop):
    id = 'C12'
    quick = (960, 95.0)
    thorough = (30000, 1500.0)
    stub = COMMON_STUB + ['order of sets (seeded)', 'standard streams, files and memory statistics used by diagnostics (simulated, can fail)',
                          'interactive debugger, graph viewer and browser (do nothing)']
    rule = 'runs in which at least one observation was made with another clock, set order or diagnostics on, counted once per distinct program and environment'
    sigrule = 'sha256 of the step kinds, operation kinds, diagnostics, faults, clock mode and set order'
    cfg = dict(leaves=(1, 3), nodes=(2, 7), steps=(6, 18), dr=.6, edit=.35, grow=.15)

    def generate(self, rng, seed, tier):
        g = EGen(rng, dict(self.cfg))
        start = {'op': 'diag', 'DEBUG': rng.random() < .5, 'VERBOSE': rng.random() < .5}
        return {'seed': seed, 'prog': [start] + g.program(), 'clock': rng.choice(['steady', 'frozen', 'slow', 'slow', 'jumpy', 'jumpy']),
                'setorder': rng.random() < .6}

    def run(self, case):
        with Diag(case['seed']) as w:
            a = EExec(w, case['prog'])
            try:
                a.run()
            except Violation:
                return {'unusable': 1}      # decided by other properties
        with Diag(case['seed'], clock=case['clock'], setorder=case['setorder']) as w:
            b = EExec(w, case['prog'])
            b.plain = False
            b.run()
            b.stat('simtime_ms', int(w.clock.span * 1000))
            b.stat('fault:clock %s' % case['clock'], w.clock.reads)
            b.stat('diagnostic operations', w.io.ops)
        first = {k: (m, p) for k, m, p in a.results}
        for k, meth, p in b.results:
            if k not in first:
                raise Violation('different-result', 'minimization at step %d' % k)
            q = first[k][1]
            if len(p) != len(q) or any(not np.allclose(x, y, rtol=1e-5, atol=1e-7, equal_nan=True) for x, y in zip(p, q)):
                raise Violation('different-result', 'minimization with %s at step %d: %d points ending at %s, in the ordinary environment %d ending at %s' % (
                    meth, k, len(p), np.round(p[-1], 7).tolist(), len(q), np.round(q[-1], 7).tolist()))
        return b.stats

    def signature(self, case, st):
        return [[[o['op'], o.get('kind'), o.get('how'), o.get('mode'), o.get('method'), o.get('DEBUG'), o.get('VERBOSE'),
                  sorted((o.get('io') or {}).items())] for o in case['prog']], case['clock'], case['setorder']]

    def nontrivial(self, case, st):
        return st.get('derivatives', 0) + st.get('minimizations', 0) > 0 and (
            case['clock'] != 'steady' or case['setorder'] or st.get('diagnostics on', 0) > 0)

    def smaller(self, case):
        if case['setorder']:
            yield dict(case, setorder=False)
        if case['clock'] != 'steady':
            yield dict(case, clock='steady')
        for c in Prop.smaller(self, case):
            yield c
        for i, o in enumerate(case['prog']):
            if o.get('io'):
                yield dict(case, prog=case['prog'][:i] + [dict(o, io=None)] + case['prog'][i + 1:])
