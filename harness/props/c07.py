"""C07: each stored distance is that of the pair it stands for"""
import os
import zlib

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import core, feats, tasks

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 2600, 'wall': 50},
          'thorough': {'cases': 25000, 'wall': 1500}}
RULE = ('generated tasks and features (times on, off and within 2^-40 of the '
        'bounds of the items, in units printed with up to 17 digits, empty '
        'segments, items sharing one bound, several feature files and '
        'groups, float32/64), processed '
        'with 1-4 processes by a recording distance whose value '
        'identifies, in order, the frames of both segments; every stored '
        'value is compared with that of the brute-force segments. '
        'Enumerated: splitting large blocks into jobs. Non-trivial: at '
        'least 4 pairs, whose values are not all the same.')
ASSUMPTIONS = ['onsets and offsets are written with enough digits to '
               'identify a float64']


def record(x, y):
    """An asymmetric distance that identifies its arguments"""
    return float(zlib.crc32(
        ('%r|' % (x.shape,)).encode() + x.astype('f8').tobytes() + b'/' +
        ('%r|' % (y.shape,)).encode() + y.astype('f8').tobytes()))


def record_normalized(x, y, normalized):
    assert normalized is True or normalized is False
    return record(x, y) + (2. ** 33 if normalized else 2. ** 34)


class Boom(Exception):
    pass


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=3, max_rows=10, max_across=1,
                                 pads=True, pad_sizes=(5, 130, 260)))
    if not case['across'] and case.get('pad'):
        case['pad']['n'] = 5            # or the number of pairs explodes
    case['win'] = draw(feats.windows())
    case['scale'] = draw(st.sampled_from(feats.SCALES))
    if draw(st.sampled_from([0, 0, 1])):
        case['shared'] = [draw(st.integers(2, 5)),
                          draw(st.sampled_from(['onset', 'offset']))]
    case['feats'] = draw(feats.feature_specs())
    case['n_cpu'] = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 2, 3, 4]))
    case['normalized'] = draw(st.sampled_from([None, None, 0, 1]))
    case['threshold'] = draw(st.sampled_from([None, None, None, 1]))
    case['dup'] = draw(st.sampled_from([0] * 12 + [1]))
    if case['feats']['split'] > 1 and draw(st.booleans()):
        case['groups'] = draw(st.permutations(['features', 'u', 'v9']))
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(case, ('generic',)))]
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    f = {'seed': 1, 'dim': 2, 'values': 'float', 'period': 1, 'shift': 0,
         'holes': 0, 'dtype': 'f8', 'split': 1}
    for n_cpu in (1, 2, 3, 5):
        c = tasks.big_case(2, 12, across=1, n_ac=3, by=3)
        c.update(win=[[0, 0.5]], feats=f, n_cpu=n_cpu, normalized=None)
        yield c
    for sizes in ([125000], [125001], [300000, 1, 7], [1, 2, 3, 4, 5],
                  [10, 200001, 10, 130000], [1], [999, 1000]):
        for n_cpu in (1, 2, 3, 8):
            yield {'jobs': sizes, 'n_cpu': n_cpu}


def run_jobs(case, info):
    """The jobs of a large task share out its pairs"""
    from ABXpy.distances import distances
    sizes, n_cpu = case['jobs'], case['n_cpu']
    with h5py.File('pairs.abx', 'w') as f:
        names = ['b%d' % i for i in range(len(sizes))]
        d = f.create_dataset('bys', (len(names),),
                             dtype=h5py.special_dtype(vlen=str))
        d[:] = names
        g = f.create_group('unique_pairs')
        g.create_dataset('data', shape=(sum(sizes), 1), dtype=np.int64)
        pos = 0
        for n, k in zip(names, sizes):
            g.attrs[n] = (10, pos, pos + k)
            pos += k
    if not hasattr(distances, 'create_distance_jobs'):
        info.cls('no function to split the work')
        return
    jobs = distances.create_distance_jobs('pairs.abx', 'out.dist', n_cpu,
                                          buffer_max_size=1)
    if not all(isinstance(job, dict) and set(job) >= {'by', 'start', 'stop'}
               for job in jobs):
        info.cls('jobs of another form')
        return
    core.require(len(jobs) == n_cpu, '%d jobs for %d processes', len(jobs),
                 n_cpu)
    seen = {n: np.zeros(k, dtype=int) for n, k in zip(names, sizes)}
    for job in jobs:
        for by, lo, hi in zip(job['by'], job['start'], job['stop']):
            core.require(0 <= lo < hi <= len(seen[by]) and
                         int(lo) == lo and int(hi) == hi,
                         'job on pairs %r-%r of %d', lo, hi, len(seen[by]))
            seen[by][int(lo):int(hi)] += 1
    for n, s in seen.items():
        core.require(bool(np.all(s == 1)), 'block %s: pairs computed %r '
                     'times', n, sorted(set(s.tolist())))
    with h5py.File('out.dist', 'r') as f:
        core.require(f['distances/data'].shape == (sum(sizes), 1),
                     'distances of shape %r', f['distances/data'].shape)
    info.nontrivial = len(sizes) > 1 or n_cpu > 1
    info.cls('jobs of a large task')


def run_case(case, info):
    if 'jobs' in case:
        return run_jobs(case, info)
    from ABXpy.distances import distances
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None)
        total = task.stats['nb_triplets']
        task.generate_triplets(output='out.abx', seed=0,
                               threshold=case.get('threshold'))
    if not total:
        info.cls('no triplets')
        return
    spec = case['feats']
    files = feats.make(ref, spec)
    own = case.get('groups')
    paths = feats.write(files, spec, groups=own)
    many = len(paths) > 1 or case.get('dup')
    groups = own[:len(paths)] if own else ['features'] * len(paths)
    if case.get('dup'):
        paths, groups = paths + paths[:1], groups + groups[:1]
    norm = case.get('normalized')
    fun = record if norm is None else record_normalized

    def compute():
        distances.compute_distances(
            paths if many else paths[0], groups if many else groups[0],
            'out.abx', 'out.dist', fun, norm, n_cpu=case['n_cpu'],
            feature_file_as_list=bool(many))

    if case.get('dup'):
        core.expect_raises(compute, AssertionError,
                           'a file described in two feature files')
        done = False
        if os.path.exists('out.dist'):
            with h5py.File('out.dist', 'r') as f:
                done = bool(f.attrs.get('done', False))
        core.require(not done, 'failed computation is marked as done')
        info.cls('duplicate files refused')
        return
    with core.quiet():
        compute()
    with h5py.File('out.dist', 'r') as f:
        d = f['distances/data'][...]
        core.require(bool(f.attrs['done']), 'not marked as done')
    n, empty = 0, 0
    seg = feats.Segments(files, ref)
    values = set()
    for b in tasks.decode('out.abx', ref):
        lo, hi = b.pair_range
        core.require(hi <= d.shape[0] and d.shape[1] == 1,
                     'distances of shape %r', d.shape)
        p = b.pairs.astype(np.int64)
        for k, (a, x) in enumerate(zip(p % b.base, p // b.base)):
            ia, ix = b.src[a], b.src[x]
            sa, sx = seg[ia], seg[ix]
            want = record(sa, sx)
            if norm is not None:
                want = record_normalized(sa, sx, bool(norm))
            core.require(
                d[lo + k, 0] == want, 'by %r, pair of rows (%d, %d): the '
                'distance was not computed on their frames, in this order '
                '(%d and %d frames)%s', b.by, ia, ix, len(sa), len(sx),
                '' if d[lo + k, 0] != record(sx, sa) else ' (reversed)')
            n += 1
            empty += len(sa) == 0 or len(sx) == 0
            values.add(want)
    core.require(n == d.shape[0], '%d distances for %d pairs', d.shape[0], n)
    info.count('pairs', n)
    info.cls('n_cpu=%d' % case['n_cpu'])
    info.cls('empty segments', empty > 0)
    info.cls('items share an onset or offset', 'shared' in case)
    info.cls('several feature files', many)
    info.cls('feature files with different groups', many and bool(own))
    info.cls('filtered items', bool(fs))
    info.nontrivial = n >= 4 and len(values) > 1
