"""C12: angular (cosine) distance between frames"""
import numpy as np
from hypothesis import strategies as st

from .. import core, feats

BUDGET = {'quick': {'cases': 30000, 'wall': 35},
          'thorough': {'cases': 200000, 'wall': 900}}
RULE = ('generated pairs of segments (1-6 frames, 1-6 dimensions, float32 '
        'and float64, C/Fortran/strided layout, with null frames, repeated, '
        'opposite, orthogonal and nearly parallel frames, magnitudes from '
        '1e-120 to 1e120; 1e-15 to 1e15 in float32) compared with a high-accuracy angle computation; '
        'symmetry and scale invariance; arguments left untouched. '
        'Non-trivial: a null, repeated or opposite frame occurs, or at least '
        '2x2 frames.')
ASSUMPTIONS = ['squares of the values neither overflow nor underflow']

EPS = {'f8': 2.3e-16, 'f4': 1.2e-7}


def tolerance(w, dim, dtype):
    """Largest error of an angle over pi whose cosine was computed with a
    few roundings of the given type (they matter most for parallel frames)"""
    delta = 4 * (dim + 4) * EPS[dtype]
    sine = np.sin(np.pi * w)
    return min(1.5 * delta / max(sine, 1e-300), 2 * np.sqrt(delta)) / np.pi \
        + 4 * EPS['f8'] + (0 if dtype == 'f8' else EPS['f4'])


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 6))
    base = [[draw(st.one_of(st.integers(-3, 3),
                            st.floats(-10, 10, allow_nan=False,
                                      allow_subnormal=False)))
             for _ in range(dim)] for _ in range(draw(st.integers(1, 4)))]
    base = [[v if abs(v) > 1e-6 else 0 for v in r] for r in base]

    def frames():
        out = []
        for _ in range(draw(st.integers(1, 6))):
            out.append([
                draw(st.integers(-1, len(base) - 1)),      # -1: null frame
                draw(st.sampled_from([1., 1., -1., 3., 0.1, 1e-3, -7.,
                                      'big', 'tiny', 'huge', 'minute'])),
                draw(st.sampled_from([0, 0, 0, 1]))])      # perturbed
        return out
    return {'dim': dim, 'base': base, 'x': frames(), 'y': frames(),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'layout': draw(st.sampled_from(['C', 'F', 'step']))}


def strategy(tier):
    return cases()


def fixed_cases(tier):
    for dt in ('f8', 'f4'):
        for bad in ('f4' if dt == 'f8' else 'f8', 'i8'):
            yield {'mismatch': [dt, bad]}


def build(case, which):
    rows = []
    for k, s, p in case[which]:
        r = np.zeros(case['dim']) if k < 0 else np.array(
            case['base'][k], dtype=float)
        if case['dtype'] == 'f8':
            s = {'big': 1e60, 'tiny': 1e-60, 'huge': 1e120,
                 'minute': 1e-120}.get(s, s)
        else:
            s = {'big': 1e6, 'tiny': 1e-6, 'huge': 1e15,
                 'minute': 1e-12}.get(s, s)
        if p and k >= 0:
            r = r * (1 + 1e-9 * np.arange(case['dim']))
        rows.append(r * s)
    a = np.array(rows, dtype=case['dtype'])
    if case['layout'] == 'F':
        return np.asfortranarray(a)
    if case['layout'] == 'step':
        b = np.full((2 * a.shape[0], 2 * a.shape[1]), 99, dtype=a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    return a


def run_case(case, info):
    from ABXpy.distances.metrics import cosine
    if 'mismatch' in case:
        a, b = case['mismatch']
        core.expect_raises(
            lambda: cosine.cosine_distance(np.ones((2, 2), a),
                                           np.ones((2, 2), b)),
            AssertionError, 'frames of types %s and %s' % (a, b))
        info.cls('mixed types refused')
        return
    x, y = build(case, 'x'), build(case, 'y')
    x0, y0 = x.copy(), y.copy()
    d = cosine.cosine_distance(x, y)
    core.require(d.shape == (len(x), len(y)) and d.dtype == np.float64,
                 'result of shape %r and type %s for %d and %d frames',
                 d.shape, d.dtype, len(x), len(y))
    core.require(np.array_equal(x, x0) and np.array_equal(y, y0),
                 'the frames were modified')
    want = feats.cosine_matrix(x.astype('f8'), y.astype('f8'))
    tol = np.zeros((len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            w = want[i][j]
            zx, zy = not x[i].any(), not y[j].any()
            tol[i, j] = tolerance(w, case['dim'], case['dtype'])
            core.require(
                abs(d[i, j] - w) <= (0 if zx or zy else tol[i, j]),
                'distance between %r and %r is %r, the angle over pi is %r',
                x[i].tolist(), y[j].tolist(), d[i, j], w)
            info.cls('null frame', zx != zy)
            info.cls('two null frames', zx and zy)
            info.cls('same direction', w == 0)
            info.cls('opposite', w == 1 and not (zx or zy))
    e = cosine.cosine_distance(y, x)
    core.require(bool(np.all(np.abs(e.T - d) <= 2 * tol)), 'not symmetric')
    # normalised variant: same directions when sums are positive
    sx, sy = x.sum(1), y.sum(1)
    big = np.abs(x).max() < 1e50 and np.abs(y).max() < 1e50
    if big and np.all(sx > 0.1 * np.abs(x).max(1)) and np.all(sx > 0) and \
            np.all(sy > 0.1 * np.abs(y).max(1)) and np.all(sy > 0):
        g = cosine.normalize_cosine_distance(x, y)
        core.require(bool(np.all(np.abs(g - d) <= 20 * tol)),
                     'normalising frames of positive sum changes the angle')
        core.require(np.array_equal(x, x0) and np.array_equal(y, y0),
                     'the frames were modified by normalisation')
        info.cls('normalised variant')
    info.cls(case['dtype'])
    info.cls('single pair', d.size == 1)
    info.nontrivial = (len(x) > 1 and len(y) > 1) or \
        bool(info.classes & {'null frame', 'two null frames',
                             'same direction', 'opposite'})
