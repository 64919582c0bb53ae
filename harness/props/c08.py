"""C08: scores compare the distances of X to A and to B"""
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 3800, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1200}}
RULE = ('generated tasks (with filters and thresholds) and generated '
        'distances per pair, with many ties, neighbouring floating point '
        'numbers, zeros of both signs, infinities and subnormal numbers; the '
        'score of every triplet is compared with the comparison of the two '
        'distances. Non-trivial: at least two different scores occur.')
ASSUMPTIONS = ['distances are not NaN']

SPECIAL = [0.0, -0.0, 1.0, math.nextafter(1.0, 2), math.nextafter(1.0, 0),
           math.inf, 5e-324, 1e-300, 1e300, 0.5, 2.0, 0.1, 0.30000000000000004,
           0.3, -1.0, 127.0, 128.0, 256.0]


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=3, max_rows=12, max_across=2,
                                 missing=True, pads=True,
                                 pad_sizes=(5, 20, 260)))
    if not case['across'] and case.get('pad'):
        case['pad']['n'] = 20
    case['threshold'] = draw(st.sampled_from([None, None, None, 1, 2]))
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(
            case, ('generic', 'ext')))]
    case['dis'] = draw(st.lists(st.one_of(
        st.sampled_from(SPECIAL),
        st.floats(allow_nan=False, min_value=0)), min_size=2, max_size=8))
    case['dis'] = [repr(d) for d in case['dis']]
    case['dseed'] = draw(st.integers(0, 10 ** 6))
    case['name'] = draw(st.sampled_from(['given', 'given', 'default',
                                         'exists']))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    for c in (tasks.big_case(2, 33), tasks.huge_index_case(),
              tasks.big_case(3, 8, across=1, n_ac=3, by=3)):
        c.update(dis=['0.0', '1.0', '1.5', 'inf'], dseed=3, name='given',
                 threshold=None)
        yield c


def run_case(case, info):
    import ABXpy.score
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None)
        total = task.stats['nb_triplets']
        task.generate_triplets(output='out.abx', seed=0,
                               threshold=case.get('threshold'))
    if not total:
        info.cls('no triplets')
        return
    blocks = tasks.decode('out.abx', ref)
    n_pairs = sum(len(b.pairs) for b in blocks)
    pool = np.array([float(d) for d in case['dis']])
    rng = np.random.RandomState(case['dseed'])
    d = pool[rng.randint(0, len(pool), size=n_pairs)]
    with h5py.File('my.dist', 'w') as f:
        f.attrs['done'] = True
        f.create_group('distances').create_dataset(
            'data', data=d.reshape(-1, 1))
    if case['name'] == 'exists':
        with open('out.score', 'w') as f:
            f.write('precious')
        core.expect_raises(
            lambda: ABXpy.score.score('out.abx', 'my.dist', 'out.score'),
            (AssertionError, OSError, ValueError), 'an existing score file')
        core.require(open('out.score').read() == 'precious',
                     'the existing score file was modified')
        os.remove('out.score')
        info.cls('existing file refused')
    path = 'out.score'
    with core.quiet():
        if case['name'] == 'default':
            ABXpy.score.score('out.abx', 'my.dist')
            path = 'out_my.score'
            core.require(os.path.exists(path), 'no file %s', path)
        else:
            ABXpy.score.score('out.abx', 'my.dist', path)
    with h5py.File(path, 'r') as f:
        s = f['scores'][...]
    n = sum(len(b.raw) for b in blocks)
    core.require(s.shape == (n, 1), 'scores of shape %r for %d triplets',
                 s.shape, n)
    seen = set()
    for b in blocks:
        lo, hi = b.pair_range
        p = b.pairs.astype(np.int64)
        dist = {(a, x): float(v) for a, x, v in zip(
            (p % b.base).tolist(), (p // b.base).tolist(), d[lo:hi])}
        for k, (a, bb, x) in enumerate(b.raw.tolist()):
            da, db = dist[a, x], dist[bb, x]
            want = 1 if da < db else -1 if da > db else 0
            got = s[b.range[0] + k, 0]
            core.require(got == want, 'triplet %r (source rows) of by %r: '
                         'd(A,X)=%r, d(B,X)=%r, score %r', b.triplets[k],
                         b.by, da, db, got)
            seen.add(want)
    info.count('triplets', n)
    info.cls('several by blocks', len(blocks) > 1)
    info.cls('ties', 0 in seen)
    info.cls('filters', bool(fs))
    info.cls('file name ' + case['name'])
    info.nontrivial = len(seen) > 1
