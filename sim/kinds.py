"""Reference model of the operations: what value each has, what its local
Jacobian is, which option settings are meaningful, and how it is built through
chumpy's public interface.  Nothing in here calls chumpy except `build`.

Every kind gives
  val(o, *ins)    value as plain NumPy (works on complex input if jac=='holo')
  jac             'holo'  complex-step differentiation of val
                  'lin'   val is linear: columns are val(unit vectors)
                  'zero'  piecewise constant
                  function(o, ins, slot) -> matrix
  ok(o, ins, out) the point is inside the domain and away from kinks and ties
  opts(rng, shs)  random options for inputs of these shapes (None: not possible)
  build(ch, I, o) the chumpy expression
"""
import numpy as np

MAXABS = 2000.0
MAXSIZE = 14           # elements of an array, in most programs
LIMIT = [MAXSIZE]
H = 1e-30

KINDS = {}


class room(object):
    """with room(n): arrays may have up to n elements"""
    def __init__(self, n):
        self.n = n or MAXSIZE

    def __enter__(self):
        LIMIT[0] = self.n

    def __exit__(self, *a):
        LIMIT[0] = MAXSIZE


class Kind(object):
    def __init__(self, name, slots, val, jac='holo', build=None, ok=None, opts=None,
                 settable=(), rewire=True, weight=1.0, perm=False, single=True,
                 distinct=False, groups=()):
        self.name, self.slots, self.val, self.jac = name, slots, val, jac
        self.build, self.okf, self.opts = build, ok, opts
        self.settable = settable          # option names that are attributes of the node
        self.rewire = rewire              # slots are attributes that may be reassigned
        self.weight = weight
        self.perm = perm                  # promises to be an injective rearrangement
        self.single = single              # one chumpy object (not a composite)
        self.distinct = distinct
        self.groups = set(groups)
        KINDS[name] = self


def A(x):
    return np.atleast_1d(np.asarray(x))


def evaluate(kind, o, ins):
    """Value of a node as chumpy would report it, or None if outside the domain."""
    try:
        with np.errstate(all='ignore'):
            out = A(kind.val(o, *ins))
            out = np.array(out, dtype=np.float64, order='C')
            if out.size == 0 or out.size > LIMIT[0]:
                return None
            if not np.all(np.isfinite(out)) or np.max(np.abs(out)) > MAXABS:
                return None
            if kind.okf is not None and not kind.okf(o, ins, out):
                return None
    except (ValueError, IndexError, TypeError, np.linalg.LinAlgError, AssertionError,
            ZeroDivisionError, KeyError):
        return None
    return out


def local_jac(kind, o, ins, slot_idx, out):
    """d out / d ins[slot_idx], the other inputs held fixed."""
    n, m = out.size, ins[slot_idx].size
    if kind.jac == 'zero':
        return np.zeros((n, m))
    if callable(kind.jac):
        return np.asarray(kind.jac(o, ins, slot_idx), dtype=np.float64).reshape((n, m))
    J = np.empty((n, m))
    base = ins[slot_idx]
    args = list(ins)
    with np.errstate(all='ignore'):
        if kind.jac == 'lin':
            if len(ins) > 1:
                args = [np.zeros_like(i) for i in ins]
            for j in range(m):
                e = np.zeros(m)
                e[j] = 1.0
                args[slot_idx] = e.reshape(base.shape)
                J[:, j] = A(kind.val(o, *args)).ravel()
        else:
            for j in range(m):
                c = base.astype(np.complex128).ravel()
                c[j] += 1j * H
                args[slot_idx] = c.reshape(base.shape)
                J[:, j] = A(kind.val(o, *args)).imag.ravel() / H
    return J


# ---------------------------------------------------------------- helpers
def far(x, *pts):
    return all(np.min(np.abs(x - p)) > 1e-4 for p in pts)


def rnd(rng, n, lo=-2.0, hi=2.0):
    return [round(rng.uniform(lo, hi), 3) for _ in range(n)]


def ax(rng, sh, none=True):
    n = len(sh)
    c = list(range(-n, n))
    if none:
        c += [None] * max(1, n)
    return rng.choice(c)


def made(rng):
    """Constructor option that asks for derivatives in one form."""
    return rng.choice([None] * 12 + ['make_dense', 'make_sparse'])


# ---------------------------------------------------------------- elementwise
def unary(name, f, ok=None, jac='holo', weight=1.0, method=None, build=None, groups=()):
    def b(ch, I, o, name=name):
        return getattr(ch, name)(I['x'], **({o['mk']: True} if o.get('mk') else {}))
    Kind(name, ('x',), lambda o, x: f(x), jac, build or b, ok=ok, weight=weight,
         opts=lambda rng, shs: {'f': rng.randint(0, 1), 'mk': made(rng)},
         groups=('elem',) + tuple(groups))


unary('negative', np.negative, build=lambda ch, I, o: -I['x'] if o.get('f') else ch.negative(I['x']))
unary('sin', np.sin)
unary('cos', np.cos)
unary('tan', np.tan, ok=lambda o, i, out: np.min(np.abs(np.cos(i[0]))) > 0.1, weight=.4)
unary('exp', np.exp, ok=lambda o, i, out: np.max(i[0]) < 4)
unary('log', np.log, ok=lambda o, i, out: np.min(i[0]) > 0.05)
unary('sqrt', np.sqrt, ok=lambda o, i, out: np.min(i[0]) > 0.05)
unary('square', np.square, weight=1.5)
unary('reciprocal', lambda x: 1.0 / x, ok=lambda o, i, out: np.min(np.abs(i[0])) > 0.05)
unary('arctan', np.arctan, weight=.5)
unary('arcsin', np.arcsin, ok=lambda o, i, out: np.max(np.abs(i[0])) < 0.95, weight=.5)
unary('arccos', np.arccos, ok=lambda o, i, out: np.max(np.abs(i[0])) < 0.95, weight=.5)
unary('absolute', np.abs, jac=lambda o, i, s: np.diag(np.sign(i[0]).ravel()),
      ok=lambda o, i, out: far(i[0], 0), build=lambda ch, I, o: abs(I['x']) if o.get('f') else ch.absolute(I['x']))
unary('nan_to_num', lambda x: x, jac='lin', weight=.5)
unary('floor', np.floor, jac='zero', ok=lambda o, i, out: far(i[0] - np.round(i[0]), 0), weight=.4,
      build=lambda ch, I, o: I['x'].floor() if o.get('f') else ch.floor(I['x']))
unary('ceil', np.ceil, jac='zero', ok=lambda o, i, out: far(i[0] - np.round(i[0]), 0), weight=.3)
unary('sign', np.sign, jac='zero', ok=lambda o, i, out: far(i[0], 0), weight=.3)


def _gamma(o, x):
    import scipy.special
    return scipy.special.gamma(x)


def _gamma_jac(o, i, s):
    import scipy.special as S
    return np.diag((S.gamma(i[0]) * S.digamma(i[0])).ravel())


Kind('gamma', ('x',), _gamma, _gamma_jac, lambda ch, I, o: ch.extras.gamma(I['x']),
     ok=lambda o, i, out: np.min(i[0]) > 0.3 and np.max(i[0]) < 5, weight=.4)


def _clip_ok(o, i, out):
    return o['a_min'] < o['a_max'] and far(i[0], o['a_min'], o['a_max'])


def _clip_opts(rng, shs):
    a, b = sorted(rnd(rng, 2, -2, 2))
    if b - a < .2:
        b = a + 1.
    return {'a_min': a, 'a_max': b}


Kind('clip', ('a',), lambda o, a: np.clip(a, o['a_min'], o['a_max']),
     lambda o, i, s: np.diag(((i[0] > o['a_min']) & (i[0] < o['a_max'])).astype(float).ravel()),
     lambda ch, I, o: ch.clip(I['a'], o['a_min'], o['a_max']), ok=_clip_ok, opts=_clip_opts,
     settable=('a_min', 'a_max'))

# ---------------------------------------------------------------- binary


def binary(name, s1, s2, f, jac='holo', ok=None, weight=1.0, build=None, groups=('bin',)):
    def b(ch, I, o, name=name, s1=s1, s2=s2):
        return getattr(ch, name)(**{s1: I[s1], s2: I[s2]})
    Kind(name, (s1, s2), lambda o, a, b_: f(a, b_), jac, build or b, ok=ok, weight=weight,
         opts=lambda rng, shs: {'f': rng.randint(0, 1), 'mk': made(rng)}, groups=groups)


def _form(sym):
    def mk(name, s1, s2):
        def b(ch, I, o):
            if o.get('f'):
                a, b_ = I[s1], I[s2]
                return {'+': lambda: a + b_, '-': lambda: a - b_, '*': lambda: a * b_,
                        '/': lambda: a / b_, '**': lambda: a ** b_}[sym]()
            return getattr(ch, name)(**dict({s1: I[s1], s2: I[s2]}, **({o['mk']: True} if o.get('mk') else {})))
        return b
    return mk


binary('add', 'a', 'b', np.add, weight=3, build=_form('+')('add', 'a', 'b'))
binary('subtract', 'a', 'b', np.subtract, weight=2, build=_form('-')('subtract', 'a', 'b'))
binary('multiply', 'a', 'b', np.multiply, weight=3, build=_form('*')('multiply', 'a', 'b'))
binary('divide', 'x1', 'x2', np.divide, weight=1.5, build=_form('/')('divide', 'x1', 'x2'),
       ok=lambda o, i, out: np.min(np.abs(i[1])) > 0.1)
binary('NanDivide', 'x1', 'x2', np.divide, weight=.5,
       ok=lambda o, i, out: np.min(np.abs(i[1])) > 0.1)
binary('power', 'x', 'pow', np.power, weight=1.2, build=_form('**')('power', 'x', 'pow'),
       ok=lambda o, i, out: np.min(i[0]) > 0.1 and np.max(np.abs(i[1])) < 4)


def _ext_jac(which):
    def j(o, i, s):
        a, b = np.broadcast_arrays(i[0], i[1])
        pick = (a > b) if which == 'max' else (a < b)
        if s == 1:
            pick = ~pick
        idx = np.broadcast_to(np.arange(i[s].size).reshape(i[s].shape), a.shape).ravel()
        J = np.zeros((a.size, i[s].size))
        J[np.arange(a.size), idx] = pick.astype(float).ravel()
        return J
    return j


def _noties(o, i, out):
    return np.min(np.abs(i[0] - i[1])) > 1e-3


binary('maximum', 'a', 'b', np.maximum, jac=_ext_jac('max'), ok=_noties)
binary('minimum', 'a', 'b', np.minimum, jac=_ext_jac('min'), ok=_noties)
for _n in ('greater', 'less_equal', 'less', 'greater_equal', 'not_equal', 'equal'):
    binary(_n, 'x1', 'x2', getattr(np, _n), jac='zero', ok=_noties, weight=.15, groups=('logic',))


def _dot_ok(o, i, out):
    return i[0].ndim <= 3 and i[1].ndim <= 3


Kind('dot', ('a', 'b'), lambda o, a, b: np.dot(a, b), 'holo',
     lambda ch, I, o: I['a'].dot(I['b']) if o.get('f') else ch.dot(I['a'], I['b']),
     ok=_dot_ok, opts=lambda rng, shs: {'f': rng.randint(0, 1)}, weight=2)


def _cross_ok(o, i, out):
    return i[0].ndim == 2 and i[0].shape == i[1].shape and i[0].shape[1] == 3


Kind('cross', ('a', 'b'), lambda o, a, b: np.cross(a, b), 'holo',
     lambda ch, I, o: ch.cross(I['a'], I['b']), ok=_cross_ok, weight=1.5)

# ---------------------------------------------------------------- reductions


def _axis_opts(rng, shs):
    return {'axis': ax(rng, shs[0]), 'f': rng.randint(0, 1)}


def _axis_ok(o, i, out):
    return o['axis'] is None or -i[0].ndim <= o['axis'] < i[0].ndim


def _red(name):
    def b(ch, I, o):
        x = list(I.values())[0]
        if o.get('f') and name in ('sum', 'mean', 'min', 'max'):
            return getattr(x, name)(axis=o['axis'])
        if o['axis'] is None and o.get('f'):
            return getattr(ch, name)(x)
        return getattr(ch, name)(x, axis=o['axis'])
    return b


Kind('sum', ('x',), lambda o, x: np.sum(x, axis=o['axis']), 'lin', _red('sum'), ok=_axis_ok,
     opts=_axis_opts, settable=('axis',), weight=2.5)
Kind('mean', ('x',), lambda o, x: np.mean(x, axis=o['axis']), 'lin', _red('mean'), ok=_axis_ok,
     opts=_axis_opts, settable=('axis',), weight=2)
Kind('SumOfSquares', ('x',), lambda o, x: np.sum(x ** 2), 'holo',
     lambda ch, I, o: ch.SumOfSquares(I['x']), weight=1.5)
Kind('cumsum', ('a',), lambda o, a: np.cumsum(a), 'lin',
     lambda ch, I, o: I['a'].cumsum() if o.get('f') else ch.cumsum(I['a']))
Kind('norm', ('x',), lambda o, x: np.sqrt(np.sum(x ** 2)), 'holo',
     lambda ch, I, o: ch.linalg.norm(I['x']), ok=lambda o, i, out: out[0] > .1, rewire=False,
     single=False, weight=.6)


def _ext_red(name, arg):
    def jac(o, i, s):
        a, axis = i[0], o['axis']
        idx = np.arange(a.size).reshape(a.shape)
        am = arg(a, axis=axis)
        if axis is None:
            js = np.array([am])
        else:
            js = np.take_along_axis(idx, np.expand_dims(am, axis), axis).ravel()
        J = np.zeros((js.size, a.size))
        J[np.arange(js.size), js] = 1.0
        return J

    def ok(o, i, out):
        if not _axis_ok(o, i, out):
            return False
        s = np.sort(i[0].ravel())
        return s.size < 2 or np.min(np.diff(s)) > 1e-3
    b = {'amax': 'max', 'amin': 'min'}

    def build(ch, I, o):
        if o.get('f') and name in b:
            return getattr(I['a'], b[name])(axis=o['axis'])
        return getattr(ch, name)(I['a'], axis=o['axis'])
    Kind(name, ('a',), lambda o, a: getattr(np, name)(a, axis=o['axis']), jac, build, ok=ok,
         opts=_axis_opts, settable=('axis',), weight=.9)


_ext_red('amax', np.argmax)
_ext_red('amin', np.argmin)
_ext_red('nanmax', np.argmax)
_ext_red('nanmin', np.argmin)
KINDS['nanmax'].weight = KINDS['nanmin'].weight = .3

# ---------------------------------------------------------------- rearranging


def reorder(name, val, build, opts, settable, ok=None, weight=1.0, perm=False, jac='lin'):
    Kind(name, ('a',), val, jac, build, ok=ok, opts=opts, settable=settable, weight=weight,
         perm=perm, groups=('reorder',))


def _tr_opts(rng, shs):
    n = len(shs[0])
    p = list(range(n))
    rng.shuffle(p)
    if rng.random() < .2:
        p = [k - n for k in p]
    return {'axes': rng.choice([None, p]), 'f': rng.randint(0, 1)}


def _tr_build(ch, I, o):
    if o['axes'] is None and o.get('f'):
        return I['a'].T
    return ch.transpose(I['a'], None if o['axes'] is None else tuple(o['axes']))


reorder('transpose', lambda o, a: np.transpose(a, o['axes']), _tr_build, _tr_opts, ('axes',),
        weight=2, perm=True)
reorder('rollaxis', lambda o, a: np.rollaxis(a, o['axis'], o['start']),
        lambda ch, I, o: ch.rollaxis(I['a'], o['axis']) if o['start'] == 0 else ch.rollaxis(I['a'], o['axis'], o['start']),
        lambda rng, shs: {'axis': rng.randint(-len(shs[0]) if rng.random() < .3 else 0, len(shs[0]) - 1), 'start': rng.randint(0, len(shs[0]))},
        ('axis', 'start'), perm=True, weight=.7)
reorder('swapaxes', lambda o, a: np.swapaxes(a, o['axis1'], o['axis2']),
        lambda ch, I, o: ch.swapaxes(I['a'], o['axis1'], o['axis2']),
        lambda rng, shs: {k: rng.randint(-len(shs[0]) if rng.random() < .3 else 0, len(shs[0]) - 1) for k in ('axis1', 'axis2')},
        ('axis1', 'axis2'), perm=True, weight=.7)
reorder('tile', lambda o, a: np.tile(a, o['reps']),
        lambda ch, I, o: ch.tile(I['a'], o['reps'] if isinstance(o['reps'], int) else tuple(o['reps'])),
        lambda rng, shs: {'reps': rng.randint(1, 3) if rng.random() < .2 else
                          [rng.randint(1, 2) for _ in range(len(shs[0]) + (rng.random() < .1))]}, ('reps',))


def _diag_ok(o, i, out):
    return i[0].ndim <= 2


reorder('diag', lambda o, a: np.diag(a, o['k']), lambda ch, I, o: ch.diag(I['a'], o['k']),
        lambda rng, shs: {'k': rng.choice([0, 0, 1, -1])}, ('k',), ok=_diag_ok)
reorder('diagflat', lambda o, a: np.diagflat(a, o['k']), lambda ch, I, o: ch.diagflat(I['a'], o['k']),
        lambda rng, shs: {'k': rng.choice([0, 0, 1])}, ('k',), weight=.5)
def _repeat_opts(rng, shs):
    a = ax(rng, shs[0])
    if rng.random() < .3:
        n = int(np.prod(shs[0])) if a is None else shs[0][a]
        return {'repeats': [rng.randint(0, 2) for _ in range(n)], 'axis': a}
    return {'repeats': rng.randint(1, 3), 'axis': a}


reorder('repeat', lambda o, a: np.repeat(a, o['repeats'], o['axis']),
        lambda ch, I, o: ch.repeat(I['a'], o['repeats'], o['axis']),
        lambda rng, shs: _repeat_opts(rng, shs), ('repeats', 'axis'),
        ok=_axis_ok)
reorder('roll', lambda o, a: np.roll(a, o['shift'], o['axis']),
        lambda ch, I, o: ch.roll(I['a'], o['shift'], o['axis']),
        lambda rng, shs: {'shift': [rng.randint(-2, 3) for _ in shs[0]], 'axis': list(range(len(shs[0])))} if rng.random() < .15 else
        {'shift': rng.randint(-2, 3), 'axis': ax(rng, shs[0])}, ('shift', 'axis'),
        ok=lambda o, i, out: isinstance(o['axis'], list) and isinstance(o['shift'], list) and len(o['axis']) == i[0].ndim or
        not isinstance(o['shift'], list) and not isinstance(o['axis'], list) and _axis_ok(o, i, out), perm=True)
reorder('rot90', lambda o, a: np.rot90(a, o['k']), lambda ch, I, o: ch.rot90(I['a'], o['k']),
        lambda rng, shs: {'k': rng.randint(0, 3)} if len(shs[0]) == 2 else None, ('k',), perm=True)


def _sort_jac(o, i, s):
    a, axis = i[0], o['axis']
    idx = np.arange(a.size).reshape(a.shape)
    js = (np.argsort(a, axis=None) if axis is None else
          np.take_along_axis(idx, np.argsort(a, axis=axis), axis)).ravel()
    J = np.zeros((js.size, a.size))
    J[np.arange(js.size), js] = 1.0
    return J


def _sort_ok(o, i, out):
    s = np.sort(i[0].ravel())
    return _axis_ok(o, i, out) and (s.size < 2 or np.min(np.diff(s)) > 1e-3)


reorder('sort', lambda o, a: np.sort(a, o['axis']), lambda ch, I, o: ch.sort(I['a'], o['axis']),
        lambda rng, shs: {'axis': ax(rng, shs[0])}, ('axis',), ok=_sort_ok, jac=_sort_jac, weight=.8)


def factor_shapes(n):
    out = [[n], [1, n], [n, 1]]
    for a in range(2, n):
        if n % a == 0:
            out.append([a, n // a])
    if n == 8:
        out.append([2, 2, 2])
    if n == 12:
        out.append([2, 3, 2])
    if n == 6:
        out.append([1, 3, 2])
    return out


def _reshape_opts(rng, shs):
    n = int(np.prod(shs[0]))
    c = factor_shapes(n) + [[-1], [-1]]
    for s in factor_shapes(n):
        k = list(s)
        k[rng.randrange(len(k))] = -1
        c.append(k)
    return {'newshape': rng.choice(c), 'f': rng.randint(0, 2)}


def _reshape_build(ch, I, o):
    ns = tuple(o['newshape'])
    if ns == (-1,):
        if o.get('f') == 1:
            return I['a'].ravel()
        if o.get('f') == 2:
            return ch.ravel(I['a'])
    if o.get('f') == 1:
        return I['a'].reshape(*ns) if len(ns) > 1 else I['a'].reshape(ns)
    return ch.reshape(I['a'], ns)


reorder('reshape', lambda o, a: np.reshape(a, o['newshape']), _reshape_build, _reshape_opts,
        ('newshape',), weight=2, perm=True)


def idx_of(key, shape):
    """Flat indices selected by a JSON-encoded key, and the resulting shape."""
    t = np.arange(int(np.prod(shape))).reshape(shape)[dec_key(key)]
    return [int(v) for v in np.atleast_1d(t).ravel()], list(np.shape(t))


def dec_key(key):
    """JSON key -> index object.  ['s',a,b,c] slice, ['i',n], ['a',[..]], ['e'], ['n'], ['b',[..]]"""
    def one(k):
        if k[0] == 's':
            return slice(k[1], k[2], k[3])
        if k[0] == 'i':
            return k[1]
        if k[0] == 'a':
            return np.array(k[1], dtype=int)
        if k[0] == 'b':
            return np.array(k[1], dtype=bool)
        if k[0] == 'e':
            return Ellipsis
        if k[0] == 'n':
            return None
    ks = [one(k) for k in key]
    return ks[0] if len(ks) == 1 else tuple(ks)


def rand_key(rng, sh, uniq=True):
    n = len(sh)
    key = []
    fancy = False
    for d in range(rng.randint(1, n)):
        L = sh[d]
        c = rng.random()
        if c < .5 or L == 1:
            a = rng.randint(0, L - 1)
            b = rng.randint(a + 1, L)
            c2 = rng.random()
            if c2 < .15:
                key.append(['s', None, None, -1])
            elif c2 < .3:
                key.append(['s', None, None, None])
            elif c2 < .45:
                key.append(['s', a, b, 2])
            else:
                key.append(['s', a, b, None])
        elif c < .75:
            key.append(['i', rng.randint(-L, L - 1)])
        elif not fancy:
            fancy = True
            if rng.random() < .3:
                m = [rng.random() < .6 for _ in range(L)]
                if not any(m):
                    m[0] = True
                key.append(['b', m])
            else:
                k = rng.randint(1, L)
                v = rng.sample(range(L), k) if uniq else [rng.randrange(L) for _ in range(k)]
                key.append(['a', v])
        else:
            key.append(['s', None, None, None])
    if n > 1 and len(key) < n and rng.random() < .2:
        key.append(['e'])
    return key


def _select_opts(rng, shs):
    sh = list(shs[0])
    key = rand_key(rng, sh, uniq=rng.random() < .85)
    idxs, ps = idx_of(key, sh)
    if not idxs:
        return None
    return {'key': key, 'idxs': idxs, 'preferred_shape': ps, 'base': sh}


def _select_val(o, a):
    return a.ravel()[np.array(o['idxs'], dtype=int)].reshape(o['preferred_shape'])


def _select_ok(o, i, out):
    return list(i[0].shape) == list(o['base']) or (i[0].ndim == 1 and len(o['base']) == 1)


reorder('select', _select_val, lambda ch, I, o: I['a'][dec_key(o['key'])], _select_opts,
        ('idxs', 'preferred_shape'), ok=_select_ok, weight=3, perm=True)


def select_injective(o):
    return len(set(o['idxs'])) == len(o['idxs'])


def _mv(name, f, opts=None, build=None, weight=.4):
    reorder(name, f, build or (lambda ch, I, o: getattr(ch, name)(I['a'])), opts, (), weight=weight)
    KINDS[name].rewire = False


_mv('fliplr', lambda o, a: a[:, ::-1], lambda rng, shs: {'base': list(shs[0])} if len(shs[0]) >= 2 else None)
_mv('flipud', lambda o, a: a[::-1, ...], lambda rng, shs: {'base': list(shs[0])})
KINDS['fliplr'].okf = KINDS['flipud'].okf = lambda o, i, out: list(i[0].shape) == o['base']
def _squeeze_opts(rng, shs):
    ones = [k for k, n in enumerate(shs[0]) if n == 1]
    return {'base': list(shs[0]), 'axis': rng.choice([None] + ones)}


_mv('squeeze', lambda o, a: np.squeeze(a, o['axis']), _squeeze_opts,
    lambda ch, I, o: I['a'].squeeze() if o['axis'] is None else ch.squeeze(I['a'], o['axis']))
_mv('expand_dims', lambda o, a: np.expand_dims(a, o['axis']),
    lambda rng, shs: {'base': list(shs[0]), 'axis': rng.randint(0, len(shs[0]))},
    lambda ch, I, o: ch.expand_dims(I['a'], o['axis']))
KINDS['squeeze'].okf = KINDS['expand_dims'].okf = lambda o, i, out: list(i[0].shape) == o['base']

Kind('atleast', ('x',), lambda o, x: {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[o['ndims']](x), 'lin',
     lambda ch, I, o: {1: ch.atleast_1d, 2: ch.atleast_2d, 3: ch.atleast_3d}[o['ndims']](I['x']),
     opts=lambda rng, shs: {'ndims': rng.randint(1, 3)}, settable=('ndims',), weight=.7)


def _concat(n):
    slots = tuple('m%d' % k for k in range(n))

    def val(o, *ins):
        return np.concatenate(ins, axis=o['axis'])

    def build(ch, I, o):
        L = [I[s] for s in slots]
        if o['axis'] == 1 and o.get('f'):
            return ch.hstack(L)
        return ch.concatenate(L, axis=o['axis'])
    Kind('concat%d' % n, slots, val, 'lin', build,
         opts=lambda rng, shs: {'axis': rng.randint(-len(shs[0]) if rng.random() < .4 else 0, len(shs[0]) - 1), 'f': rng.randint(0, 1)},
         weight=1.6, groups=('concat',))


_concat(2)
_concat(3)
Kind('vstack', ('a', 'b'), lambda o, a, b: np.vstack([a, b]), 'lin',
     lambda ch, I, o: ch.vstack([I['a'], I['b']]), rewire=False, single=False, weight=.5, groups=('concat',))
Kind('dstack', ('a', 'b'), lambda o, a, b: np.dstack([a, b]), 'lin',
     lambda ch, I, o: ch.dstack([I['a'], I['b']]), rewire=False, single=False, weight=.25, groups=('concat',))

# ---------------------------------------------------------------- linear algebra


def _sq_ok(o, i, out):
    a = i[0]
    return a.ndim == 2 and a.shape[0] == a.shape[1] and a.shape[0] <= 3 and np.linalg.cond(a) < 50


def _inv_ok(o, i, out):
    a = i[0]
    if a.ndim == 3:
        return a.shape[1] == a.shape[2] and a.shape[1] <= 3 and all(np.linalg.cond(b) < 50 for b in a)
    return _sq_ok(o, i, out)


Kind('inv', ('a',), lambda o, a: np.linalg.inv(a), 'holo', lambda ch, I, o: ch.linalg.inv(I['a']),
     ok=_inv_ok, weight=2, groups=('linalg',))
Kind('det', ('x',), lambda o, a: np.linalg.det(a), 'holo', lambda ch, I, o: ch.linalg.det(I['x']),
     ok=_inv_ok, weight=1.5, groups=('linalg',))


def _logabsdet_jac(o, i, s):
    a = i[0].reshape((-1,) + i[0].shape[-2:])
    J = np.zeros((len(a), i[0].size))
    for k, b in enumerate(a):
        J[k, k * b.size:(k + 1) * b.size] = np.linalg.inv(b).T.ravel()
    return J


Kind('slogdet', ('x',), lambda o, a: np.linalg.slogdet(a)[1], _logabsdet_jac,
     lambda ch, I, o: ch.linalg.slogdet(I['x'])[1], ok=_inv_ok, weight=1.2, groups=('linalg',))
Kind('signdet', ('x',), lambda o, a: np.linalg.slogdet(a)[0], 'zero',
     lambda ch, I, o: ch.linalg.slogdet(I['x'])[0], ok=_inv_ok, weight=.3, rewire=False, single=False,
     groups=('linalg',))


Kind('slogdets', ('x', 'y'), lambda o, x, y: np.array([np.linalg.slogdet(x)[1], np.linalg.slogdet(y)[1]]),
     lambda o, i, s: np.outer(np.eye(2)[s], np.linalg.inv(i[s]).T.ravel()),
     lambda ch, I, o: ch.linalg.slogdet(I['x'], I['y'])[1],
     ok=lambda o, i, out: all(_sq_ok(o, [a], out) for a in i), weight=.3, rewire=False, single=False,
     groups=('linalg', 'concat'))


def _pinv_val(o, a):
    if a.shape[1] > a.shape[0]:
        return a.T.dot(np.linalg.inv(a.dot(a.T)))
    return np.linalg.inv(a.T.dot(a)).dot(a.T)


def _pinv_ok(o, i, out):
    return i[0].ndim == 2 and min(i[0].shape) <= 3 and np.linalg.cond(i[0]) < 20


Kind('pinv', ('mtx',), _pinv_val, 'holo', lambda ch, I, o: ch.linalg.pinv(I['mtx']), ok=_pinv_ok,
     weight=1.5, groups=('linalg',))


def _lstsq_ok(o, i, out):
    return (i[0].ndim == 2 and i[0].shape[0] >= i[0].shape[1] and np.linalg.cond(i[0]) < 20 and
            i[1].ndim <= 2 and i[1].shape[0] == i[0].shape[0])


Kind('lstsq', ('a', 'b'), lambda o, a, b: _pinv_val(o, a).dot(b), 'holo',
     lambda ch, I, o: ch.linalg.lstsq(I['a'], I['b'])[0], ok=_lstsq_ok, weight=1, rewire=True, groups=('linalg',))


Kind('lstsqres', ('a', 'b'), lambda o, a, b: np.sum((a.dot(_pinv_val(o, a).dot(b)) - b) ** 2, axis=0), 'holo',
     lambda ch, I, o: ch.linalg.lstsq(I['a'], I['b'])[1], ok=_lstsq_ok, weight=.3, rewire=False, single=False,
     groups=('linalg',))


def _svd_ok(o, i, out):
    a = i[0]
    if a.ndim != 2 or max(a.shape) > 4 or min(a.shape) > 3:
        return False
    s = np.linalg.svd(a, compute_uv=False)
    return list(a.shape) == o['base'] and s[-1] > .1 and s[0] < 50 and (s.size < 2 or np.min(-np.diff(s)) > .1)


def _svdvals_jac(o, i, s):
    u, d, v = np.linalg.svd(i[0], full_matrices=False)
    return np.array([np.outer(u[:, k], v[k]).ravel() for k in range(d.size)])


def _svd_opts(rng, shs):
    return {'base': list(shs[0])} if len(shs[0]) == 2 else None


Kind('svdvals', ('x',), lambda o, a: np.linalg.svd(a, compute_uv=False), _svdvals_jac,
     lambda ch, I, o: ch.linalg.svd(I['x'])[1], ok=_svd_ok, opts=_svd_opts, weight=1, rewire=False,
     single=False, groups=('linalg',))


def _recon(ch, I, o):
    u, d, v = ch.linalg.svd(I['x'])
    return (u * d).dot(v)


Kind('svdrecon', ('x',), lambda o, a: a, 'lin', _recon, ok=_svd_ok, opts=_svd_opts, weight=.4, rewire=False,
     single=False, groups=('linalg',))


def _td_opts(rng, shs):
    if len(shs) != 2 or len(shs[0]) < 2 or len(shs[1]) < 2:
        return None
    c = [(p, q) for p in range(len(shs[0])) for q in range(len(shs[1])) if shs[0][p] == shs[1][q]]
    if not c:
        return None
    p, q = rng.choice(c)
    return {'axes': [[p], [q]], 'b0': list(shs[0]), 'b1': list(shs[1])}


Kind('tensordot', ('a', 'b'), lambda o, a, b: np.tensordot(a, b, axes=o['axes']), 'holo',
     lambda ch, I, o: ch.tensordot(I['a'], I['b'], axes=o['axes']),
     ok=lambda o, i, out: list(i[0].shape) == o['b0'] and list(i[1].shape) == o['b1'], opts=_td_opts,
     weight=.8, rewire=False, single=False, groups=('linalg',))


def _mvm_opts(rng, shs):
    if len(shs[0]) != 1:
        return None
    r = rng.randint(1, 3)
    return {'mtx': [rnd(rng, shs[0][0]) for _ in range(r)]}


Kind('MatVecMult', ('vec',), lambda o, v: np.array(o['mtx']).dot(v), 'lin',
     lambda ch, I, o: ch.MatVecMult(mtx=np.array(o['mtx']), vec=I['vec']), opts=_mvm_opts,
     settable=('mtx',), weight=1.2, ok=lambda o, i, out: i[0].ndim == 1)

# ---------------------------------------------------------------- extras


def _i3_grad(o):
    return np.gradient(np.array(o['image']))


def _i3_val(o, loc):
    im = np.array(o['image'])
    loc = np.stack([np.clip(loc[:, k], 0, im.shape[k] - 1) for k in range(3)], 1)
    f = np.floor(loc).astype(int)
    g = _i3_grad(o)
    r = im[f[:, 0], f[:, 1], f[:, 2]].copy()
    for k in range(3):
        r += g[k][f[:, 0], f[:, 1], f[:, 2]] * (loc[:, k] - f[:, k])
    return r


def _i3_jac(o, i, s):
    loc = i[0]
    f = np.floor(loc).astype(int)
    g = _i3_grad(o)
    J = np.zeros((loc.shape[0], loc.size))
    for n in range(loc.shape[0]):
        for k in range(3):
            J[n, 3 * n + k] = g[k][tuple(f[n])]
    return J


def _i3_ok(o, i, out):
    a = i[0]
    return (a.ndim == 2 and a.shape[1] == 3 and a.min() > .01 and a.max() < 1.99 and
            np.min(np.abs(a - np.round(a))) > 1e-3)


def _i3_opts(rng, shs):
    if len(shs[0]) != 2 or shs[0][1] != 3:
        return None
    return {'image': [[rnd(rng, 3) for _ in range(3)] for _ in range(3)]}


Kind('Interp3D', ('locations',), _i3_val, _i3_jac,
     lambda ch, I, o: ch.extras.Interp3D(locations=I['locations'], image=np.array(o['image'])),
     ok=_i3_ok, opts=_i3_opts, settable=('image',), weight=1.5)


def _moment_val(o, a):
    mn = np.expand_dims(np.mean(a, axis=o['axis']), o['axis'])
    return np.mean((a - mn) ** 2.0, axis=o['axis'])


# (a-mean)**m has log(negative) only in the derivative w.r.t. the constant exponent, which is not asked for
Kind('moment2', ('a',), _moment_val, 'holo',
     lambda ch, I, o: ch.extras.moment(I['a'], 2., axis=o['axis']),
     ok=lambda o, i, out: list(i[0].shape) == o['base'],
     opts=lambda rng, shs: {'axis': rng.randint(0, len(shs[0]) - 1), 'base': list(shs[0])} if len(shs[0]) > 1 else None,
     weight=.4, rewire=False, single=False)

LOGIC = ['isfinite', 'isinf', 'isnan', 'all', 'any']
Kind('logicfn', ('a',), lambda o, a: getattr(np, o['funcname'])(a - o['c']), 'zero',
     lambda ch, I, o: getattr(ch, o['funcname'])(I['a'] - o['c'] if o['c'] else I['a']),
     opts=lambda rng, shs: {'funcname': rng.choice(LOGIC), 'c': 0}, settable=('funcname',), weight=.25,
     groups=('logic',))

Kind('handle', ('x',), lambda o, x: x, 'lin', lambda ch, I, o: ch.ChHandle(x=I['x']), weight=.8)

# ---------------------------------------------------------------- lambdas
LAMBDAS = [
    ('x*y+x', lambda: (lambda x, y: x * y + x), lambda x, y: x * y + x),
    ('(x-y)**2', lambda: (lambda x, y: ((x - y) * (x - y))), lambda x, y: (x - y) * (x - y)),
    ('sin(x)', None, lambda x, y: np.sin(x) + 0 * y),
    ('x+2', lambda: (lambda x, y: x * 2.), lambda x, y: x * 2.),
]


def _lam_build(ch, I, o):
    k = o['k']
    if LAMBDAS[k][1] is None:
        lm = ch.Ch(lambda x, y: ch.sin(x) + 0. * y)
    else:
        lm = ch.Ch(LAMBDAS[k][1]())
    lm.x = I['x']
    lm.y = I['y']
    return lm


Kind('lambda', ('x', 'y'), lambda o, x, y: LAMBDAS[o['k']][2](x, y), 'holo', _lam_build,
     opts=lambda rng, shs: {'k': rng.randint(0, 2)}, weight=1.0, groups=('lambda',))

# ---------------------------------------------------------------- user-defined nodes
# value: scale * (p*p) + q + shift ; reads the cached property "pp" (depends on p and scale)
Kind('probe', ('p', 'q'), lambda o, p, q: o['scale'] * (p * p) + q + o['shift'], 'holo',
     lambda ch, I, o: ch._sim_user.Probe(p=I['p'], q=I['q'], scale=o['scale'], shift=o['shift']),
     ok=lambda o, i, out: i[0].shape == i[1].shape,
     opts=lambda rng, shs: {'scale': rnd(rng, 1)[0], 'shift': rnd(rng, 1)[0]},
     settable=('scale', 'shift'), weight=2.5, groups=('probe',))

Kind('wrap', ('a', 'b'), lambda o, a, b: np.exp(-a * a) * o['gain'] + a * b, 'holo',
     lambda ch, I, o: ch._sim_user.Wrap(a=I['a'], b=I['b'], gain=o['gain']),
     ok=lambda o, i, out: i[0].shape == i[1].shape,
     opts=lambda rng, shs: {'gain': rnd(rng, 1)[0]},
     settable=('gain',), weight=1.2, groups=('probe',))

def _mats(o, i):
    return [np.array(o[k]) for k in ('M', 'N')]


def _affine_jac(o, i, s):
    return _mats(o, i)[s]


# a node that keeps its derivatives and hands out the same (dense) matrices every time
Kind('affine', ('a', 'b'), lambda o, a, b: np.array(o['M']).dot(a) + np.array(o['N']).dot(b), _affine_jac,
     lambda ch, I, o: ch._sim_user.Affine(a=I['a'], b=I['b'], M=np.array(o['M']), N=np.array(o['N'])),
     ok=lambda o, i, out: i[0].ndim == 1 and i[1].ndim == 1 and out.ndim == 1 and out.size == len(o['M']) == len(o['N']),
     opts=lambda rng, shs: (lambda r: {'M': [rnd(rng, shs[0][0]) for _ in range(r)], 'N': [rnd(rng, shs[1][0]) for _ in range(r)]})(rng.randint(1, 4))
     if len(shs[0]) == 1 and len(shs[1]) == 1 else None,
     settable=('M', 'N'), weight=.9, groups=('linop',))

# a node whose derivative is a LinearOperator: the elements in reverse order, times a factor, plus the other input
Kind('linop', ('a', 'b'), lambda o, a, b: o['g'] * a.ravel()[::-1].reshape(a.shape) + b, 'holo',
     lambda ch, I, o: ch._sim_user.Linop(a=I['a'], b=I['b'], g=o['g']),
     ok=lambda o, i, out: i[0].shape == i[1].shape,
     opts=lambda rng, shs: {'g': rnd(rng, 1, .2, 1.5)[0]},
     settable=('g',), weight=.5, groups=('linop',))

Kind('gauge', ('a',), lambda o, a: o['level'] * a + 1.0, 'holo',
     lambda ch, I, o: ch._sim_user.Gauge(a=I['a'], level=o['level']),
     opts=lambda rng, shs: {'level': rnd(rng, 1, .2, 1.5)[0]},
     settable=('level',), weight=.8, groups=('gauge',))

# an input with a second name, which here is the one it is set by
for _n in ('Alias', 'Pair'):
    Kind(_n.lower(), ('rt', 'other'), lambda o, v, w: o['g'] * v * w, 'holo',
         lambda ch, I, o, n=_n: getattr(ch._sim_user, n)(rt=I['rt'], other=I['other'], g=o['g']) if o.get('f') else
         getattr(ch._sim_user, n)(o['g'], I['rt'], other=I['other']),
         ok=lambda o, i, out: i[0].shape == i[1].shape,
         opts=lambda rng, shs: {'g': rnd(rng, 1, .2, 1.5)[0], 'f': rng.randint(0, 1)},
         settable=('g',), weight=.5, groups=('probe',))

# a node that stands for an expression it builds itself
Kind('result', ('a', 'b'), lambda o, a, b: np.sin(a) * o['gain'] + a * b, 'holo',
     lambda ch, I, o: ch._sim_user.Result(a=I['a'], b=I['b'], gain=o['gain']),
     ok=lambda o, i, out: i[0].shape == i[1].shape,
     opts=lambda rng, shs: {'gain': rnd(rng, 1, .2, 1.5)[0]},
     settable=('gain',), weight=.7, groups=('probe',))

Kind('flaky', ('x',), lambda o, x: x, 'lin', lambda ch, I, o: ch._sim_user.Flaky(x=I['x']),
     weight=.3, groups=('flaky',))

# a type defined on the spot, which dies with its last instance
Kind('fresh', ('a',), lambda o, a: o['k'] * a - 1.0, 'holo',
     lambda ch, I, o: ch._sim_user.fresh_type()(o['k'], I['a']),
     opts=lambda rng, shs: {'k': rnd(rng, 1, .2, 1.5)[0]},
     settable=('k',), weight=.7, groups=('types',))

# a type and one derived from it that adds an input
Kind('base', ('a',), lambda o, a: o['k'] * a, 'holo',
     lambda ch, I, o: ch._sim_user.Base(o['k'], I['a']),
     opts=lambda rng, shs: {'k': rnd(rng, 1, .2, 1.5)[0]},
     settable=('k',), weight=.5, groups=('types',))

Kind('derived', ('a', 'b'), lambda o, a, b: o['k'] * a + b * b, 'holo',
     lambda ch, I, o: ch._sim_user.Derived(o['k'], I['a'], I['b']),
     ok=lambda o, ins, out: ins[0].shape == ins[1].shape,
     opts=lambda rng, shs: {'k': rnd(rng, 1, .2, 1.5)[0]},
     settable=('k',), weight=.8, groups=('types',))

for _k in KINDS.values():
    if _k.perm:
        _k.groups.add('perm')


# ---------------------------------------------------------------- shapes an operation can work with
def _sq(rng):
    n = rng.choice([1, 2, 2, 3, 3])
    return [n, n]


def _stack(rng):
    return _sq(rng) if rng.random() < .75 else rng.choice([[rng.randint(1, 3), 2, 2], [rng.randint(1, 4), 1, 1], [1, 3, 3]])


def _td_shapes(rng):
    n, m, k = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    return [[n, m], [m, k]] if rng.random() < .7 else [[1, n, m], [k, m]]


def _dot_shapes(rng):
    n, m, k = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    return rng.choice([[[n, m], [m, k]], [[n, m], [m, k]], [[n, m], [m]], [[n, m], [m]], [[n], [n]], [[n], [n]], [[n], [n, m]], [[n], [n, m]],
                       [[1, n, m], [m, k]], [[n, m], [2, m, 1]], [[m], [n, m, k]], [[2, 1, m], [1, m, k]], [[2, n, m], [m]]])


def _tall(rng):
    m = rng.randint(1, 2)
    return [rng.randint(m, 4), m]


def _lsq_shapes(rng):
    a = _tall(rng)
    return [a, [a[0]] if rng.random() < .6 else [a[0], rng.randint(1, 2)]]


def _two(rng):
    return [rng.randint(1, 3), rng.randint(1, 4)]


HINT = {'inv': lambda r: [_stack(r)], 'det': lambda r: [_stack(r)],
        'slogdet': lambda r: [_stack(r)], 'signdet': lambda r: [_stack(r)], 'slogdets': lambda r: [_sq(r), _sq(r)],
        'pinv': lambda r: [_two(r)], 'lstsq': _lsq_shapes, 'lstsqres': _lsq_shapes,
        'svdvals': lambda r: [_two(r)], 'svdrecon': lambda r: [_two(r)], 'tensordot': _td_shapes, 'dot': _dot_shapes,
        'cross': lambda r: [[r.randint(1, 4), 3]] * 2, 'Interp3D': lambda r: [[r.randint(1, 4), 3]],
        'MatVecMult': lambda r: [[r.randint(1, 5)]], 'affine': lambda r: (lambda n: [[n], [n if r.random() < .6 else r.randint(1, 4)]])(r.randint(1, 4)),
        'rot90': lambda r: [_two(r)], 'fliplr': lambda r: [_two(r)], 'moment2': lambda r: [_two(r)],
        'vstack': lambda r: (lambda n: [[r.randint(1, 2), n], [r.randint(1, 2), n]])(r.randint(1, 3))}


def one_kind(rng):
    """An operation; those that are made alike (sin, cos, ...) count as one or two."""
    alike = ('elem', 'bin', 'logic')
    pools = [[k.name] for k in KINDS.values() if not k.groups & set(alike)]
    pools += [sorted(k.name for k in KINDS.values() if g in k.groups) for g in alike]
    pools.sort()
    return rng.choice(rng.choice(pools))
