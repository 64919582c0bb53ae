"""C05: the pairs of a task are exactly those its triplets need"""
import numpy as np
from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 3000, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1200}}
RULE = ('generated item files (padded up to 66000 items), optional filters '
        'and threshold; the stored pair codes of every by block are decoded '
        'and compared with the set of (A, X) and (B, X) pairs of the stored '
        'triplets. Non-trivial: at least two triplets share a pair.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=3, max_rows=14, max_across=2,
                                 missing=True, pads=True,
                                 pad_sizes=(5, 12, 130, 250, 256, 300)))
    if draw(st.booleans()):
        case['filters'] = draw(st.lists(
            tasks.filter_specs(case, ('by', 'generic', 'generic', 'ext')),
            min_size=1, max_size=1))
    case['threshold'] = draw(st.sampled_from([None, None, 1, 2]))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    yield tasks.huge_index_case()
    yield tasks.big_case(2, 33)
    yield tasks.big_case(2, 8, across=1, n_ac=4, by=3)
    # largest code just at the limits of 8, 16 bits
    for n in (16, 17, 255, 256, 257, 129):
        c = tasks.big_case(2, 1, across=1)
        c['pad'] = {'n': n - 4, 'where': 'front', 'mode': 'same', 'by': {}}
        yield c
    if tier == 'thorough':
        yield tasks.big_case(4, 25)
        yield tasks.big_case(3, 30, across=1, n_ac=3, by=2)


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None)
        n = task.stats['nb_triplets']
        task.generate_triplets(output='out.abx', seed=0,
                               threshold=case.get('threshold'))
    if n == 0:
        info.cls('no triplets')
        return
    end = 0
    shared = False
    blocks = tasks.decode('out.abx', ref)
    ranges = sorted(b.pair_range for b in blocks)
    for lo, hi in ranges:
        core.require(lo == end and hi > lo,
                     'ranges of pairs %r do not follow one another', ranges)
        end = hi
    import h5py
    with h5py.File('out.abx', 'r') as f:
        stored = f['unique_pairs/data'].shape
    core.require(stored == (end, 1), 'pairs of shape %r, ranges up to %d',
                 stored, end)
    for b in blocks:
        core.require(b.base > b.raw.max(), 'by %r: base %d of the pair codes '
                     'for items up to %d', b.by, b.base, b.raw.max())
        p = b.pairs.astype(np.int64)
        core.require(p.size == 0 or p.min() >= 0, 'negative pair code')
        core.require(bool(np.all(np.diff(p) > 0)),
                     'by %r: pair codes are not strictly increasing', b.by)
        got = set(zip((p % b.base).tolist(), (p // b.base).tolist()))
        want = set(zip(b.raw[:, 0].tolist(), b.raw[:, 2].tolist())) | \
            set(zip(b.raw[:, 1].tolist(), b.raw[:, 2].tolist()))
        core.require(got == want, 'by %r: pairs (item, X) missing %r, in '
                     'excess %r', b.by, sorted(want - got)[:3],
                     sorted(got - want)[:3])
        shared = shared or len(want) < 2 * len(b.raw)
        info.count('pairs', len(want))
        info.cls('base > 255', b.base > 255)
        info.cls('base > 65535', b.base > 65535)
    info.cls('several by blocks', len(blocks) > 1)
    info.cls('filters', bool(fs))
    info.cls('threshold', case.get('threshold') is not None)
    info.nontrivial = shared
