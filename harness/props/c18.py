"""C18: sampling without replacement"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import require

BUDGET = {'quick': {'cases': 9000, 'wall': 35},
          'thorough': {'cases': 40000, 'wall': 600}}
RULE = ('generated population and sample sizes (1 to 300, edges K=0, K=N, '
        'and populations to 10^12), consumed by generated chunk sizes (0 to '
        'beyond the end) or by iteration, relative and absolute indexing: '
        'exactly K distinct increasing indices within each chunk; single '
        'draws within the support of the hypergeometric law; and repeated '
        'draws compared with the exact laws (hypergeometric, uniform over '
        'subsets, inclusion of each item) with Chernoff bounds of '
        'probability below 1e-12 each. Non-trivial: 0 < K < N and at least '
        'two chunks, or a comparison of frequencies.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(
        ['chunks'] * 5 + ['iter'] * 2 + ['plain'] * 2 + ['hyper', 'law']))
    if kind == 'hyper':
        N = draw(st.one_of(st.integers(1, 40), st.integers(1, 2000),
                           st.integers(1, 10 ** 12)))
        return {'kind': kind, 'N': N, 'K': draw(st.integers(0, N)),
                'n': draw(st.integers(0, N))}
    if kind == 'law':
        N = draw(st.integers(2, 7))
        return {'kind': kind, 'N': N, 'K': draw(st.integers(1, N)),
                'sizes': draw(st.lists(st.integers(1, N), min_size=1,
                                       max_size=4)), 'M': 300}
    if kind == 'plain':
        N = draw(st.one_of(st.integers(1, 30), st.integers(90, 130),
                           st.integers(1, 3000)))
        return {'kind': kind, 'N': N, 'n': draw(st.integers(0, N)),
                'how': draw(st.sampled_from(['auto', 'auto', 'knuth',
                                             'rejection']))}
    big = draw(st.integers(0, 7)) == 0
    if big:
        N = draw(st.integers(10 ** 6, 10 ** 12))
        K = draw(st.integers(1, 3000))
        sizes = draw(st.lists(st.integers(N // 50, N), min_size=1,
                              max_size=6))
    else:
        N = draw(st.one_of(st.integers(1, 12), st.integers(1, 300)))
        K = draw(st.one_of(st.integers(0, N), st.just(N), st.just(1)))
        sizes = draw(st.lists(st.integers(0, max(2, N // 2)), min_size=1,
                              max_size=10))
    case = {'kind': kind, 'N': N, 'K': min(K, N), 'sizes': sizes,
            'relative': draw(st.booleans())}
    if kind == 'iter':
        case['K'] = max(case['K'], 1)
        case['step'] = draw(st.one_of(
            st.none(), st.integers(max(1, N // 30), N + 3)))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    m = 3000 if tier == 'quick' else 30000
    out = []
    for N, K, n in [(2, 1, 1), (5, 2, 3), (10, 3, 4), (10, 7, 4), (10, 3, 7),
                    (10, 8, 8), (30, 15, 15), (60, 5, 40), (200, 100, 50),
                    (1000, 10, 500), (1000, 990, 100), (10 ** 6, 30, 10 ** 5),
                    (10 ** 9, 10 ** 4, 10 ** 6), (10, 10, 4), (10, 0, 4),
                    (3, 2, 2), (7, 1, 6), (50, 49, 49)]:
        out.append({'kind': 'hyperlaw', 'N': N, 'K': K, 'n': n,
                    'M': m if N > 1 else 10})
    # enough draws to see a law that is slightly too narrow or too wide
    for N, K, n in [(1000, 500, 500), (10 ** 6, 1000, 5 * 10 ** 5),
                    (10 ** 6, 5 * 10 ** 5, 4 * 10 ** 5), (300, 40, 200)]:
        out.append({'kind': 'hyperlaw', 'N': N, 'K': K, 'n': n,
                    'M': 30 * m})
    for N, K, sizes in [(5, 2, [1, 2, 5]), (6, 3, [2]), (6, 3, [6]),
                        (6, 4, [5, 5]), (7, 2, [1, 1, 1, 9]),
                        (4, 1, [1, 1]), (5, 4, [3, 3])]:
        out.append({'kind': 'law', 'N': N, 'K': K, 'sizes': sizes, 'M': m})
    for N, n in [(101, 3), (150, 60), (150, 100), (20, 5), (100, 40)]:
        out.append({'kind': 'inclusion', 'N': N, 'n': n, 'M': m // 2})
    for N, K, sizes in [(3 * 10 ** 5, 2 * 10 ** 5, [250000]),
                        (4 * 10 ** 5, 4 * 10 ** 5, [390000]),
                        (10 ** 6, 250000, [10 ** 6]),
                        (10 ** 6, 300000, [700001, 5, 10 ** 6])]:
        for relative in (True, False):
            out.append({'kind': 'chunks', 'N': N, 'K': K, 'sizes': sizes,
                        'relative': relative})
    out.append({'kind': 'spread', 'N': 10 ** 6, 'K': 250000})
    return out


def tally_ok(x, m, p):
    """x successes out of m is credible for probability p"""
    if p <= 0:
        return x == 0
    if p >= 1:
        return x == m
    q = x / float(m)
    d = 0.0
    if q > 0:
        d += q * math.log(q / p)
    if q < 1:
        d += (1 - q) * math.log((1 - q) / (1 - p))
    return m * d <= 32


def increasing(s):
    return all(a < b for a, b in zip(s, s[1:]))


def check_chunk(s, n, what):
    a = [int(x) for x in s]
    require(a == [x for x in s], '%s: not integers: %s', what, s)
    require(increasing(a), '%s: not distinct increasing indices: %s', what,
            a[:30])
    require(not a or (0 <= a[0] and a[-1] < n), '%s: index out of the chunk '
            'of %d items: %s', what, n, [a[0], a[-1]] if a else a)
    return a


def log_choose(a, b):
    return math.lgamma(a + 1) - math.lgamma(b + 1) - math.lgamma(a - b + 1)


def pmf(N, K, n, k):
    if N <= 3000:
        return float(math.comb(K, k) * math.comb(N - K, n - k)) / \
            math.comb(N, n) if N < 60 else math.exp(
                math.log(math.comb(K, k)) + math.log(math.comb(N - K, n - k))
                - math.log(math.comb(N, n)))
    return math.exp(log_choose(K, k) + log_choose(N - K, n - k) -
                    log_choose(N, n))


def run_case(case, info):
    from ABXpy.sampling import sampler
    kind = case['kind']
    info.cls(kind)
    if kind == 'hyper':
        N, K, n = case['N'], case['K'], case['n']
        for _ in range(3):
            k = sampler.hypergeometric_sample(N, K, n)
            require(max(0, n + K - N) <= k <= min(n, K),
                    '%s items out of %d, %d wanted out of %d: impossible', k,
                    n, K, N)
        info.nontrivial = 0 < K < N and 0 < n < N
    elif kind == 'hyperlaw':
        N, K, n, M = case['N'], case['K'], case['n'], case['M']
        counts = {}
        for _ in range(M):
            k = int(sampler.hypergeometric_sample(N, K, n))
            counts[k] = counts.get(k, 0) + 1
        lo, hi = max(0, n + K - N), min(n, K)
        mean = n * K / float(N)
        width = 12 * math.sqrt(mean + 1) + 20
        first = max(lo, int(mean - width))
        law = [(counts.pop(k, 0), pmf(N, K, n, k))
               for k in range(first, min(hi, int(mean + width)) + 1)]
        below, p_below = 0, 0.
        for k, (x, p) in enumerate(law, first):
            require(tally_ok(x, M, p), 'hypergeometric(%d, %d, %d) gave %d '
                    '%d times out of %d, probability %g', N, K, n, k, x, M, p)
            below, p_below = below + x, p_below + p
            if 1e-7 < p_below < 1 - 1e-7:
                require(tally_ok(below, M, p_below), 'hypergeometric(%d, %d, '
                        '%d) gave at most %d %d times out of %d, probability '
                        '%g', N, K, n, k, below, M, p_below)
        require(not counts, 'hypergeometric(%d, %d, %d) gave %s', N, K, n,
                counts)
        # values around the mean
        sd = math.sqrt(mean * (N - K) / N * (N - n) / max(1, N - 1))
        for f in (.5, 1, 1.5, 2):
            near = [v for k, v in enumerate(law, first)
                    if abs(k - mean) <= f * sd]
            x, p = sum(v[0] for v in near), sum(v[1] for v in near)
            if 1e-7 < p < 1 - 1e-7:
                require(tally_ok(x, M, p), 'hypergeometric(%d, %d, %d) is '
                        'within %g of its mean %d times out of %d, '
                        'probability %g', N, K, n, f * sd, x, M, p)
        info.nontrivial = 0 < K < N
    elif kind == 'law':
        N, K, M = case['N'], case['K'], case['M']
        counts = {}
        for _ in range(M):
            s = sampler.IncrementalSampler(N, K, relative_indexing=False)
            got, pos = [], 0
            for size in case['sizes'] + [N]:
                if pos >= N:
                    break
                got.extend(int(x) for x in s.sample(size))
                pos += size
            counts[tuple(got)] = counts.get(tuple(got), 0) + 1
        subsets = list(itertools.combinations(range(N), K))
        require(set(counts) <= set(subsets), 'not a sample of %d out of %d: '
                '%s', K, N, sorted(set(counts) - set(subsets))[:3])
        for sub in subsets:
            require(tally_ok(counts.get(sub, 0), M, 1. / len(subsets)),
                    '%s was drawn %d times out of %d, probability %g', sub,
                    counts.get(sub, 0), M, 1. / len(subsets))
        info.nontrivial = K < N
    elif kind == 'inclusion':
        N, n, M = case['N'], case['n'], case['M']
        c = np.zeros(N, dtype=int)
        pair = 0
        for _ in range(M):
            s = sampler.sample_without_replacement(n, N)
            c[s] += 1
            pair += 0 in s and N - 1 in s
        for i, x in enumerate(c):
            require(tally_ok(int(x), M, n / float(N)), 'item %d of %d was '
                    'drawn %d times out of %d samples of %d', i, N, x, M, n)
        p2 = n * (n - 1.) / (N * (N - 1.))
        require(tally_ok(pair, M, p2), 'the first and last items were drawn '
                'together %d times out of %d, probability %g', pair, M, p2)
        info.nontrivial = True
    elif kind == 'spread':
        # one large sample must be spread over the whole population
        N, K = case['N'], case['K']
        s = sampler.IncrementalSampler(N, K, relative_indexing=False)
        got = check_chunk(s.sample(N), N, 'whole')
        require(len(got) == K, '%d items drawn instead of %d', len(got), K)
        hist, _ = np.histogram(got, bins=50, range=(0, N))
        for x in hist:
            require(tally_ok(int(x), N // 50, K / float(N)), 'uneven sample: '
                    '%s', hist.tolist())
        info.nontrivial = True
    elif kind == 'plain':
        N, n = case['N'], case['n']
        how = case['how']
        if how == 'rejection' and n > 0.9 * N:
            n = int(0.9 * N)
        fn = {'auto': sampler.sample_without_replacement,
              'knuth': sampler.Knuth_sampling,
              'rejection': sampler.rejection_sampling}[how]
        got = check_chunk(fn(n, N), N, how)
        require(len(got) == n, '%d items drawn instead of %d', len(got), n)
        info.nontrivial = 0 < n < N
    else:
        incremental(case, info)


def incremental(case, info):
    from ABXpy.sampling import sampler
    N, K = case['N'], case['K']
    kw = {}
    if case['kind'] == 'iter':
        if case['step'] is not None:
            kw['step'] = case['step']
    s = sampler.IncrementalSampler(
        N, K, relative_indexing=case['relative'], **kw)
    got, pos, chunks = [], 0, 0
    if case['kind'] == 'iter':
        step = case['step']
        for piece in s:
            n = N - pos if step is None else min(step, N - pos)
            base = 0 if case['relative'] else pos
            if step is None:
                # chunks of unknown size: absolute positions only
                if case['relative']:
                    a = check_chunk(piece, N, 'chunk')
                    got.extend(range(len(got), len(got) + len(a)))
                else:
                    a = check_chunk(piece, N, 'chunk')
                    require(not got or not a or a[0] > got[-1],
                            'chunks overlap')
                    got.extend(a)
            else:
                a = check_chunk([x - base for x in piece], n, 'chunk')
                got.extend(x + pos for x in a)
                pos += n
            chunks += 1
            require(chunks <= N + 1, 'the iteration does not end')
    else:
        for size in case['sizes'] + [N]:
            if pos >= N:
                break
            n = min(size, N - pos)
            base = 0 if case['relative'] else pos
            a = check_chunk([x - base for x in s.sample(size)], n, 'chunk')
            got.extend(x + pos for x in a)
            pos += n
            chunks += 1
            require(max(0, K - (N - pos)) <= len(got) <= K, '%d of %d drawn '
                    'after %d of %d items', len(got), K, pos, N)
    require(len(got) == K, '%d items drawn instead of %d', len(got), K)
    require(increasing(got), 'items drawn twice')
    info.nontrivial = 0 < K < N and chunks > 1
    info.count('chunks', chunks)
    info.cls('large population', N > 10 ** 5)
