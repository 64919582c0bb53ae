"""C13: divergences between frames seen as distributions"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import core, feats

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 30000, 'wall': 35},
          'thorough': {'cases': 200000, 'wall': 900}}
RULE = ('generated pairs of segments of positive (for the smoothed KL and '
        'Hellinger: non-negative) frames, normalised, nearly so or not, with zeros, '
        'repeated and proportional frames and contrasted magnitudes, '
        'compared with exactly summed reference formulas; every option of '
        'KL; symmetry, non-negativity, zero for equal distributions, range '
        'of JS and Hellinger; arguments left untouched; usable within DTW. '
        'Non-trivial: at least two different frames.')
ASSUMPTIONS = ['frames have a positive sum; JS and unsmoothed KL: positive '
               'values']


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 6))
    val = st.one_of(st.integers(1, 5).map(float),
                    st.floats(1e-3, 100, allow_nan=False))
    base = [[draw(val) for _ in range(dim)]
            for _ in range(draw(st.integers(1, 4)))]

    def frames():
        return [[draw(st.integers(0, len(base) - 1)),
                 draw(st.sampled_from([1., 1., 0.1, 3., 50.])),
                 draw(st.integers(-1, dim - 1))]
                for _ in range(draw(st.integers(1, 5)))]
    return {'dim': dim, 'base': base, 'x': frames(), 'y': frames(),
            'zeros': draw(st.sampled_from([0, 0, 1])),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'unit': draw(st.booleans()),
            # with unit: sums near 1
            'off': draw(st.sampled_from([0, 0, 1e-2, 1e-3, 1e-5, -1e-3]))}


def strategy(tier):
    return cases()


def build(case, which):
    rows = []
    for n, (k, s, z) in enumerate(case[which]):
        r = np.array(case['base'][k]) * s
        if case['zeros'] and z >= 0 and case['dim'] > 1:
            r[z] = 0
        if case['unit']:
            r = r / r.sum()
            if n % 2 == (which == 'x'):
                r = r * (1 + case.get('off', 0))
        rows.append(r)
    return np.array(rows, dtype=case['dtype'])


def kl(p, q):
    return math.fsum(a * math.log(a / b) for a, b in zip(p, q))


def unit(m):
    out = []
    for r in m:
        s = math.fsum(r)
        out.append([a / s for a in r])
    return out


def table(x, y, f):
    return np.array([[f(p, q) for q in y] for p in x])


def run_case(case, info):
    from ABXpy.distances.metrics import kullback_leibler as mod
    import ABXpy.distances.metrics.dtw as dtw
    x, y = build(case, 'x'), build(case, 'y')
    x0, y0 = x.copy(), y.copy()
    f4 = case['dtype'] == 'f4'
    xs, ys = x.astype('f8').tolist(), y.astype('f8').tolist()
    px, py = unit(xs), unit(ys)
    zeros = not (x.all() and y.all())

    def check(name, got, want, tol):
        core.require(isinstance(got, np.ndarray) and
                     got.shape == (len(x), len(y)) and
                     got.dtype == np.float64,
                     '%s of %d and %d frames: %r', name, len(x), len(y), got)
        core.require(np.array_equal(x, x0) and np.array_equal(y, y0),
                     '%s modified the frames', name)
        core.require(bool(np.all(np.abs(got - want) <= tol)),
                     '%s of %r and %r is %r instead of %r', name, xs, ys,
                     got.tolist(), want.tolist())
        info.cls(name)

    tol = 2e-4 if f4 else 1e-9
    eps = float(np.finfo(case['dtype']).eps)
    d = mod.kl_divergence(x, y)
    sm = np.array(feats.kl_matrix(xs, ys, eps))
    check('smoothed symmetric KL', d, sm, tol)
    core.require(bool(np.all(d >= -tol)), 'negative KL %r', d.tolist())
    # smoothing always normalises
    check('smoothed symmetric KL, not normalised', mod.kl_divergence(
        x, y, normalize=False), sm, tol)

    def smooth(m):
        return unit([[a + eps for a in r] for r in unit(m)])
    one = table(smooth(xs), smooth(ys), kl)
    for norm in (True, False):
        check('smoothed KL', mod.kl_divergence(
            x, y, symmetrized=False, normalize=norm), one, tol)
    if not zeros:
        check('KL', mod.kl_divergence(x, y, thresholded=False,
                                      symmetrized=False),
              table(px, py, kl), tol)
        check('symmetric KL', mod.kl_divergence(x, y, thresholded=False),
              table(px, py, lambda p, q: .5 * kl(p, q) + .5 * kl(q, p)), tol)
        big = max(np.abs(x).max(), np.abs(y).max(), 1.)
        check('KL of the values as they are',
              mod.kl_divergence(x, y, thresholded=False, symmetrized=False,
                                normalize=False), table(xs, ys, kl),
              tol * big * case['dim'] * 10)
        check('symmetric KL of the values as they are',
              mod.kl_divergence(x, y, thresholded=False, normalize=False),
              table(xs, ys, lambda p, q: .5 * kl(p, q) + .5 * kl(q, p)),
              tol * big * case['dim'] * 10)

        def js(p, q):
            m = [(a + b) / 2 for a, b in zip(p, q)]
            return .5 * kl(p, m) + .5 * kl(q, m)
        j = mod.js_divergence(x, y)
        check('JS', j, table(px, py, js), tol)
        core.require(bool(np.all(j <= math.log(2) + tol)),
                     'JS over log 2: %r', j.tolist())
        check('JS of the values as they are',
              mod.js_divergence(x, y, normalize=False), table(xs, ys, js),
              tol * big * case['dim'] * 10)
        r = mod.sqrt_js_divergence(x, y)
        check('square root of JS', r, np.sqrt(np.maximum(
            table(px, py, js), 0)), math.sqrt(tol))
    h = mod.hellinger_distance(x, y)
    check('Hellinger', h, table(px, py, lambda p, q: math.sqrt(
        math.fsum((math.sqrt(a) - math.sqrt(b)) ** 2
                  for a, b in zip(p, q)) / 2)), 1e-3 if f4 else 1e-7)
    core.require(bool(np.all((h >= 0) & (h <= 1 + 1e-3))),
                 'Hellinger out of [0, 1]: %r', h.tolist())
    # usable as local distances, symmetrically
    fun = {'kl': mod.kl_divergence, 'hell': mod.hellinger_distance}
    if not zeros:
        fun['js'] = mod.js_divergence
        fun['sqrt js'] = mod.sqrt_js_divergence
    for name in sorted(fun):
        a, b = fun[name](x, y), fun[name](y, x)
        t = math.sqrt(tol) if name == 'sqrt js' else tol if name != 'hell' \
            else 1e-3 if f4 else 1e-7
        core.require(bool(np.all(np.abs(a - b.T) <= 2 * t)),
                     '%s is not symmetric', name)
        got = dtw.dtw(x, y, fun[name], False)
        lo, hi = feats.dtw_bounds(a.tolist(), False, 1e-9)
        core.require(lo <= got <= hi, 'DTW over %s: %r not in [%r, %r]',
                     name, got, lo, hi)
    info.cls('zeros', zeros)
    info.cls('single frames', x.shape[0] == y.shape[0] == 1)
    info.nontrivial = len({tuple(r) for r in xs + ys}) > 1
