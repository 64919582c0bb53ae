"""C16: sorting on disk"""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from harness import core
from harness.core import require, expect_raises

BUDGET = {'quick': {'cases': 4500, 'wall': 35},
          'thorough': {'cases': 30000, 'wall': 600}}
RULE = ('generated key datasets (0-400 rows, some to 3000, in the root or '
        'other groups; few or many '
        'distinct keys, already sorted, reversed, constant, organ pipe; 8 '
        'integer types up to the extreme values and floats) with 0-3 other '
        'datasets, sorted with buffers that split them in 1 chunk to one '
        'per row (or smaller than a row) and '
        'any output buffer, through the sorting class or the pair sorting '
        'of tasks. Oracle: the multiset of complete rows is preserved and '
        'keys are in increasing order. Non-trivial: more than one chunk and '
        'rows actually move.')
ASSUMPTIONS = []

DTYPES = ['u1', 'u2', 'u4', 'u8', 'i1', 'i2', 'i4', 'i8', 'f4', 'f8']


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(1, 120),
                       st.integers(1, 400)))
    case = {
        'api': draw(st.sampled_from(['handler'] * 3 + ['pairs'])),
        'dtype': draw(st.sampled_from(DTYPES + ['i8', 'u8'])),
        'kind': draw(st.sampled_from(
            ['list', 'few', 'many', 'sorted', 'reversed', 'constant',
             'pipe', 'blocks', 'extreme'])),
        'seed': draw(st.integers(0, 10 ** 6)),
        'others': [[draw(st.sampled_from(['k', 'g', '/a/b', 'a', '/'])),
                    draw(st.sampled_from(DTYPES)), draw(st.integers(1, 4))]
                   for _ in range(draw(st.integers(0, 3)))],
        'group': draw(st.sampled_from(['k', 'k', '/', 'a/b/c'])),
        'chunks': draw(st.one_of(st.integers(1, 12), st.integers(1, 40))),
        'less': draw(st.integers(0, 9)) == 0,
        'out': draw(st.integers(0, 60)),
        'tmp': draw(st.booleans()),
    }
    if case['kind'] == 'list':
        case['keys'] = draw(st.lists(st.integers(0, 9),
                                     max_size=24))
    else:
        case['n'] = n
    if case['api'] == 'pairs':
        case['memory'] = draw(st.sampled_from(
            [1000, 1000, 0.01, 0.004, 0.0005]))
        if case['kind'] != 'list' and draw(st.booleans()):
            case['n'] = draw(st.integers(1000, 3000))
    return case


def strategy(tier):
    return cases()


def keys_of(case):
    dt = np.dtype(case['dtype'])
    rng = np.random.RandomState(case['seed'])
    kind = case['kind']
    if kind == 'list':
        return np.array(case['keys'], dtype=dt)
    n = case['n']
    top = 120
    if kind == 'few':
        k = rng.randint(0, 4, n)
    elif kind == 'many':
        k = rng.permutation(n) if dt.itemsize > 1 else rng.randint(0, top, n)
    elif kind == 'sorted':
        k = np.sort(rng.randint(0, top, n))
    elif kind == 'reversed':
        k = np.sort(rng.randint(0, top, n))[::-1]
    elif kind == 'constant':
        k = np.full(n, 7)
    elif kind == 'pipe':
        k = np.concatenate([np.arange(n // 2), np.arange(n - n // 2)[::-1]])
        k = k % top
    elif kind == 'blocks':
        k = (np.arange(n) // 5 * 7919) % top
    else:
        if dt.kind == 'f':
            vals = np.array([-np.inf, np.inf, 0, -1.5, 1e30, -1e30, 5e-30])
        else:
            ii = np.iinfo(dt)
            vals = np.array([ii.min, ii.max, ii.max - 1, ii.max // 2 + 1, 0,
                             1, ii.min + 1], dtype=dt)
        return vals[rng.randint(0, len(vals), n)].astype(dt)
    return np.asarray(k).astype(dt)


def other_rows(n, dtype, cols, j):
    dt = np.dtype(dtype)
    v = np.arange(n * cols, dtype=np.int64).reshape(n, cols) + j
    if dt.kind == 'f':
        return (v / 4.).astype(dt)
    return (v % np.iinfo(dt).max if dt.itemsize < 8 else v).astype(dt)


def run_case(case, info):
    from ABXpy.h5tools.h5_handler import H5Handler
    key = keys_of(case)
    n = len(key)
    pairs = case['api'] == 'pairs'
    others = [] if pairs else [
        (g, 'o%d' % j, other_rows(n, dt, c, j))
        for j, (g, dt, c) in enumerate(case['others'])]
    kg, kn = ('/pairs/', '3') if pairs else (case['group'], 'key')
    with h5py.File('f.h5', 'w') as f:
        f.create_dataset(kg + '/' + kn, data=key[:, None])
        f.create_dataset('bystander', data=np.arange(5))
        if pairs:
            f.create_dataset('/pairs/4', data=np.arange(9)[::-1, None])
        for g, d, v in others:
            f.create_dataset(g + '/' + d, data=v)
    os.mkdir('tmp')
    tmpdir = 'tmp' if case['tmp'] else None
    weight = key.dtype.itemsize + sum(
        v.dtype.itemsize * v.shape[1] for _, _, v in others)
    if pairs:
        from ABXpy import task
        memory = case['memory']
        amount = n * key.dtype.itemsize / 1000.
        if amount > 0.75 * memory * 1000:
            size = min(amount / 30., 0.75 * memory * 1000)
            chunks = amount / size
        else:
            chunks = 1
        with core.quiet():
            task.sort_pairs('f.h5', 3, memory=memory, tmpdir=tmpdir)
    else:
        h = H5Handler('f.h5', kg, kn, [g for g, _, _ in others],
                      [d for _, d, _ in others])
        rows = max(1, -(-n // case['chunks']))
        chunks = -(-n // rows)
        if case['less'] and n < 50:
            rows, chunks = 0.4, n    # buffers smaller than a row
        with core.quiet():
            h.sort(buffer_size=rows * weight / 1000.,
                   o_buffer_size=(case['out'] or 0.3) * weight / 1000.,
                   tmpdir=tmpdir)
    require(os.listdir('tmp') == [], 'temporary files left behind: %s',
            os.listdir('tmp'))
    with h5py.File('f.h5', 'r') as f:
        require(np.array_equal(f['bystander'][...], np.arange(5)),
                'an unrelated dataset was changed')
        if pairs:
            require(np.array_equal(f['/pairs/4'][...],
                                   np.arange(9)[::-1, None]),
                    'the pairs of another block were changed')
        got = f[kg + '/' + kn][...]
        got_others = [f[g + '/' + d][...] for g, d, _ in others]
    require(got.dtype == key.dtype and got.shape == (n, 1),
            'the key dataset became %s %s', got.dtype, got.shape)
    want = sorted(key.tolist())
    require(got[:, 0].tolist() == want, 'keys are not sorted: %s instead of '
            '%s', got[:, 0].tolist()[:30], want[:30])
    for (g, d, v), w in zip(others, got_others):
        require(w.dtype == v.dtype and w.shape == v.shape,
                'dataset %s became %s %s', d, w.dtype, w.shape)

    def whole(k, cols):
        return sorted(zip(k.tolist(), *[map(tuple, c.tolist())
                                        for c in cols]))
    require(whole(key, [v for _, _, v in others]) ==
            whole(got[:, 0], got_others),
            'rows of the datasets no longer follow their key')
    info.cls('chunks>1', chunks > 1)
    info.cls('pairs', pairs)
    info.cls('others', bool(others))
    info.cls('kind ' + case['kind'])
    info.cls('type ' + case['dtype'])
    info.nontrivial = chunks > 1 and want != key.tolist()
    if others and n > 1:
        refusals(others, n, kg)


def refusals(others, n, kg):
    from ABXpy.h5tools.h5_handler import H5Handler
    g, d, v = others[0]
    expect_raises(lambda: H5Handler('f.h5', g, d, [g], [d]), (ValueError,),
                  'sorting the key dataset twice')
    expect_raises(lambda: H5Handler('f.h5', kg, 'key', [g], ['nope']).sort(
        tmpdir='tmp'), (IOError,), 'sorting a missing dataset')
    with h5py.File('f.h5', 'a') as f:
        f.create_dataset('g/short', data=np.zeros((n - 1, 2)))
        before = f[kg + '/key'][...]
    expect_raises(lambda: H5Handler('f.h5', kg, 'key', ['g'], [
        'short']).sort(tmpdir='tmp'), (IOError,),
        'sorting datasets of different lengths')
    with h5py.File('f.h5', 'r') as f:
        require(np.array_equal(f[kg + '/key'][...], before),
                'a refused sort changed the data')
    require(os.listdir('tmp') == [], 'temporary files left behind: %s',
            os.listdir('tmp'))
