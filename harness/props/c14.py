"""C14: distances between segments"""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import core, feats
from .c10 import levenshtein

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 26000, 'wall': 35},
          'thorough': {'cases': 150000, 'wall': 900}}
RULE = ('generated pairs of segments (0-9 frames, some much longer for '
        'uniform time warping, 1-4 dimensions, few distinct frames so that '
        'they repeat, values chosen for colliding hashes or nearly equal) handed to the '
        'distances the package offers: DTW with cosine or KL, Levenshtein, '
        'uniform time warping. Oracles: DTW interval, textbook edit '
        'distance, exact rational time alignment; empty segments; equality '
        'and symmetry laws. Non-trivial: both segments non-empty, not the '
        'same length, or empty against non-empty.')
ASSUMPTIONS = ['KL: positive frames']

VALUES = [-1.0, -2.0, 0.0, 1.0, 2.0, 0.5, 3.0, -0.5, float(2 ** 61 - 1),
          0.1, 1e-10, 2e-10, -1e-300, 1 + 2. ** -52, 1e300]


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(['cosine', 'kl', 'lev', 'lev', 'utw', 'utw']))
    if fn == 'utw' and draw(st.booleans()):
        n, m = draw(st.integers(1, 40)), draw(st.integers(1, 40))
    else:
        low = 1 if fn == 'utw' else 0
        n, m = draw(st.integers(low, 9)), draw(st.integers(low, 9))
    return {'fn': fn, 'n': n, 'm': m, 'dim': draw(st.integers(1, 4)),
            'seed': draw(st.integers(0, 10 ** 6)),
            'alphabet': draw(st.integers(1, 4)),
            'same': draw(st.sampled_from([0, 0, 0, 1])),
            'near': draw(st.sampled_from([0, 0, 0, 3, 4, 5, 6])),
            'normalized': draw(st.booleans()),
            'example': draw(st.booleans()),
            'default': draw(st.booleans())}


def strategy(tier):
    return cases()


def fixed_cases(tier):
    top = 12 if tier == 'quick' else 40
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            yield {'fn': 'utw', 'n': n, 'm': m, 'dim': 2, 'seed': n * 100 + m,
                   'alphabet': 0, 'same': 0, 'normalized': True}
    for a, b in ((-1.0, -2.0), (0.0, float(2 ** 61 - 1))):
        yield {'fn': 'lev', 'pair': [a, b], 'n': 1, 'm': 1, 'dim': 1,
               'seed': 0, 'alphabet': 1, 'same': 0, 'normalized': True}


def segments(case):
    rng = np.random.RandomState(case['seed'])
    dim = case['dim']
    if case.get('pair'):
        return (np.array([[case['pair'][0]]]), np.array([[case['pair'][1]]]))
    if case['fn'] == 'lev':
        frames = np.array(VALUES)[
            rng.randint(0, len(VALUES), size=(case['alphabet'], dim))]
    elif case['fn'] == 'utw':
        frames = rng.randint(-8, 9, size=(max(1, case['alphabet'] or 50),
                                          dim)).astype(float)
    elif case['fn'] == 'kl':
        frames = rng.rand(8, dim) + 0.05
    else:
        frames = rng.randn(8, dim)
        if case['alphabet'] == 1:
            frames[0] = 0
    x = frames[rng.randint(0, len(frames), size=case['n'])]
    y = frames[rng.randint(0, len(frames), size=case['m'])]
    if case['same']:
        y = x.copy()
    elif case.get('near') and case['fn'] in ('cosine', 'kl'):
        # nearly the same segment
        y = x * (1 + 10. ** -case['near'] * rng.uniform(-1, 1, x.shape))
    return x.reshape(-1, dim), y.reshape(-1, dim)


def utw_ref(x, y):
    """Each frame of the longer one against the frame of the shorter one at
    the same relative position; halfway between two frames: their mean"""
    if len(x) > len(y):
        x, y = y, x
    n1, n2 = len(x), len(y)
    total = Fraction(0)

    def d(u, v):
        return sum(abs(Fraction(float(a)) - Fraction(float(b)))
                   for a, b in zip(u, v))
    for j in range(n2):
        pos = Fraction(n1, n2) * (j + Fraction(1, 2))
        if pos.denominator == 1:
            i = int(pos)
            total += (d(x[i - 1], y[j]) + d(x[i], y[j])) / 2
        else:
            total += d(x[int(math.floor(pos))], y[j])
    return float(total)


def run_case(case, info):
    import ABXpy.distance as D
    import ABXpy.distances.example_distances as E
    from ABXpy.distances.metrics import utw
    x, y = segments(case)
    x0, y0 = x.copy(), y.copy()
    fn, norm = case['fn'], case['normalized']
    n, m = len(x), len(y)
    info.cls('nearly equal segments', bool(case.get('near')) and
             fn in ('cosine', 'kl'))
    if fn == 'utw':
        def div(u, v):
            core.require(u.shape == v.shape, 'frames compared: %r and %r',
                         u.shape, v.shape)
            return np.sum(np.abs(u - v), axis=1)
        got = utw.utw(x, y, div)
        want = utw_ref(x, y)
        core.require(got == want, 'uniform time warping of %d and %d frames '
                     'is %r instead of %r', n, m, got, want)
        back = utw.utw(y, x, div)
        core.require(back == got or n == m, 'uniform time warping is not '
                     'symmetric: %r and %r', got, back)
    else:
        def call(u, v):
            if fn == 'lev':
                return D.edit_distance(u, v)
            if fn == 'kl':
                f = E.dtw_kl_divergence if case.get('example') else \
                    D.dtw_kl_distance
            else:
                f = E.dtw_cosine if case.get('example') else \
                    D.default_distance
            if case.get('default') and f is not D.default_distance:
                return f(u, v)            # normalised unless told otherwise
            return f(u, v, normalized=norm)
        if case.get('default') and (
                case.get('example') or fn == 'kl'):
            norm = True
        got = call(x, y)
        if n == 0 or m == 0:
            want = 0 if n == m else math.inf
            core.require(got == want, '%s distance of %d and %d frames: %r',
                         fn, n, m, got)
            info.cls('empty segment')
        elif fn == 'lev':
            want = levenshtein([tuple(r) for r in x.tolist()],
                               [tuple(r) for r in y.tolist()])
            core.require(got == want, 'Levenshtein distance of %r and %r is '
                         '%r instead of %r', x.tolist(), y.tolist(), got,
                         want)
            core.require(call(y, x) == got, 'not symmetric')
        else:
            if fn == 'kl':
                lo, hi = feats.dtw_bounds(feats.kl_matrix(
                    x, y, np.finfo('f8').eps), norm, 1e-9)
            else:
                lo, hi = feats.dtw_bounds(feats.cosine_matrix(x, y), norm,
                                          1e-7)
            core.require(lo <= got <= hi, '%s distance (normalized=%r) of %r '
                         'and %r is %r, not in [%r, %r]', fn, norm,
                         x.tolist(), y.tolist(), got, lo, hi)
            if n == m and np.array_equal(x, y):
                core.require(abs(got) <= 1e-6 * (n + m), 'distance of a '
                             'segment to itself: %r', got)
    core.require(np.array_equal(x, x0) and np.array_equal(y, y0),
                 'the segments were modified')
    info.cls(fn)
    info.nontrivial = n != m or (fn == 'lev' and got not in (0, n))
