"""C11: dynamic time warping"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import core, feats

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 60000, 'wall': 35},
          'thorough': {'cases': 400000, 'wall': 900}}
RULE = ('generated matrices of local distances (up to 9x9, some up to '
        '40x40 and a few to 280x270, with a cheap path anywhere; integers with many ties, dyadic numbers, floats, infinities; '
        'C, Fortran, strided and transposed layouts), plus every matrix over '
        'small alphabets up to 3x3, handed to the dtw function through its '
        'metric argument. Oracle: explicit enumeration of the monotone paths '
        '(small) and an independent dynamic program; normalised: cost '
        'divided by the length of an optimal path that goes diagonally '
        'whenever that is not worse. Non-trivial: at least 2x2 and the '
        'optimal path is not forced to be the plain diagonal.')
ASSUMPTIONS = ['local distances are not NaN and not negative']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 9))
    m = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(['small', 'small', 'bin', 'dyadic', 'float',
                                 'inf']))
    val = {'small': st.integers(0, 3), 'bin': st.integers(0, 1),
           'dyadic': st.integers(0, 64).map(lambda v: v / 16.),
           'float': st.floats(0, 100, allow_nan=False),
           'inf': st.sampled_from([0, 1, 2, 'inf'])}[kind]
    d = [[draw(val) for _ in range(m)] for _ in range(n)]
    return {'d': d, 'kind': kind, 'normalized': draw(st.booleans()),
            'layout': draw(st.sampled_from(['C', 'F', 'neg', 'step']))}


@st.composite
def large(draw):
    return {'large': [draw(st.integers(1, 40)), draw(st.integers(1, 40))],
            'seed': draw(st.integers(0, 10 ** 6)),
            'top': draw(st.sampled_from([2, 3, 10, 10 ** 6])),
            'normalized': draw(st.booleans()),
            'layout': draw(st.sampled_from(['C', 'F', 'neg', 'step'])),
            'runs': draw(st.one_of(st.just([]), st.lists(
                st.tuples(st.integers(0, 2), st.integers(1, 40)).map(list),
                min_size=1, max_size=6)))}


def strategy(tier):
    return st.one_of(cases(), cases(), cases(), large())


def fixed_cases(tier):
    yield {'empty': 1}
    # cheap paths far from the diagonal, in long segments
    for n, m in ((110, 110), (160, 90), (90, 160), (130, 2), (2, 130),
                 (280, 270)) + (((500, 500), (700, 150), (150, 700))
                                if tier == 'thorough' else ()):
        for k, runs in enumerate(([[1, n], [0, m]], [[0, m], [1, n]],
                                  [[2, 10], [1, n // 2], [0, m]],
                                  [[0, m // 2], [2, 30], [1, n]])):
            yield {'large': [n, m], 'seed': n + k, 'top': 3, 'runs': runs,
                   'normalized': bool(k % 2), 'layout': 'C'}
    sizes = [(2, 2, 5), (2, 3, 3), (3, 2, 3), (1, 4, 3), (4, 1, 3),
             (3, 3, 2), (2, 4, 2), (4, 2, 2)]
    if tier == 'thorough':
        sizes += [(3, 3, 3), (3, 4, 2), (4, 3, 2), (4, 4, 2)]
    for n, m, k in sizes:
        parts = 8 if k ** (n * m) > 1000 else 1
        for p in range(parts):
            yield {'all': [n, m, k], 'part': [p, parts]}


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'neg':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == 'step':
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), 7777.)
        b[::2, ::3] = a
        return b[::2, ::3]
    return a


def compute(d, normalized, how='C'):
    import ABXpy.distances.metrics.dtw as dtw
    a = layout(np.array(d, dtype=np.float64), how)
    x, y = np.zeros((a.shape[0], 1)), np.zeros((a.shape[1], 1))
    before = a.copy()
    got = dtw.dtw(x, y, lambda u, v: a, normalized)
    core.require(np.array_equal(before, a), 'local distances were modified')
    return got


def paths(n, m, d):
    """Every monotone path: (cost, length)"""
    stack = [(0, 0, d[0][0], 1)]
    while stack:
        i, j, c, k = stack.pop()
        if i == n - 1 and j == m - 1:
            yield c, k
            continue
        for di, dj in ((1, 0), (0, 1), (1, 1)):
            if i + di < n and j + dj < m:
                stack.append((i + di, j + dj, c + d[i + di][j + dj], k + 1))


def admissible(d):
    """Costs and lengths of paths that prefer the diagonal (exact numbers)"""
    n, m = len(d), len(d[0])
    cost, lens = {}, {}
    for i in range(n):
        for j in range(m):
            prev = [cost[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1))
                    if p in cost]
            cost[i, j] = d[i][j] + (min(prev) if prev else 0)
            if i == 0 or j == 0:
                lens[i, j] = {i + j + 1}
            else:
                low = min(prev)
                if cost[i - 1, j - 1] == low:
                    s = lens[i - 1, j - 1]
                else:
                    s = set()
                    for p in ((i - 1, j), (i, j - 1)):
                        if cost[p] == low:
                            s = s | lens[p]
                lens[i, j] = {k + 1 for k in s}
    return cost[n - 1, m - 1], lens[n - 1, m - 1]


def exact(d, how='C', both=(False, True)):
    """d holds numbers whose sums are exact"""
    n, m = len(d), len(d[0])
    cost, lens = admissible(d)
    if n * m <= 12:
        ps = list(paths(n, m, d))
        best = min(c for c, _ in ps)
        opt = {k for c, k in ps if c == best}
        if best != cost or not lens <= opt:
            raise core.HarnessError('oracles disagree')
    for norm in both:
        got = compute(d, norm, how)
        if norm:
            ok = any(abs(got - cost / float(k)) <= 1e-12 * cost / k
                     for k in lens)
            core.require(ok, 'normalised distance of %r is %r; the cost is '
                         '%r and admissible lengths %r', d, got, cost,
                         sorted(lens))
        else:
            core.require(got == cost, 'distance of %r is %r instead of %r',
                         d, got, cost)
    return cost, lens


def run_case(case, info):
    if 'empty' in case:
        import ABXpy.distances.metrics.dtw as dtw
        for a, b in ((0, 3), (3, 0), (0, 0)):
            core.expect_raises(
                lambda: dtw.dtw(np.zeros((a, 2)), np.zeros((b, 2)),
                                lambda u, v: np.zeros((a, b)), True),
                ValueError, 'dtw of an empty segment')
        info.cls('empty segments refused')
        return
    if 'all' in case:
        n, m, k = case['all']
        p, parts = case['part']
        for num, flat in enumerate(itertools.product(range(k),
                                                     repeat=n * m)):
            if num % parts == p:
                exact([list(flat[i * m:(i + 1) * m]) for i in range(n)])
                info.count('enumerated matrices')
        info.nontrivial = n > 1 and m > 1
        info.cls('exhaustive')
        return
    norm, how = case['normalized'], case['layout']
    if 'large' in case:
        n, m = case['large']
        rng = np.random.RandomState(case['seed'])
        d = rng.randint(0, case['top'], size=(n, m))
        if case.get('runs'):
            d += 5
            i = j = 0
            d[0, 0] = 0
            for way, k in case['runs'] + [[2, n + m], [0, m], [1, n]]:
                for _ in range(k):
                    ni, nj = i + (way > 0), j + (way != 1)
                    if ni < n and nj < m:
                        i, j = ni, nj
                        d[i, j] = rng.randint(0, 2)
            info.cls('cheap path')
        d = d.tolist()
        _, lens = exact(d, how, (norm,))
        info.cls('large')
        info.nontrivial = n > 1 and m > 1 and lens != {max(n, m)}
    else:
        d = [[math.inf if v == 'inf' else v for v in r] for r in case['d']]
        n, m = len(d), len(d[0])
        kind = case['kind']
        info.nontrivial = n > 1 and m > 1
        if kind == 'float':
            got = compute(d, norm, how)
            lo, hi = feats.dtw_bounds(d, norm, 1e-11)
            core.require(lo <= got <= hi, 'distance of %r is %r, not in '
                         '[%r, %r]', d, got, lo, hi)
        elif kind == 'inf':
            exact(d, how, (False,))
        else:
            _, lens = exact(d, how, (norm,))
            info.nontrivial = info.nontrivial and lens != {max(n, m)}
        info.cls(kind)
    info.cls('normalised' if norm else 'sum')
    info.cls('layout ' + how)
