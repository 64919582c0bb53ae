"""C01: a task holds exactly the triplets of its specification"""
import os

from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 3400, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1500}}
RULE = ('item files with 1-12 generated rows (plus up to 300 padding rows, '
        'missing labels, auxiliary label files, several rows for the '
        'same place), 0-3 across and 0-2 by '
        'columns, 7 kinds of labels (numbers next to text too); the stored triplets, decoded to source '
        'rows through the stored feature locations, are compared with a '
        'brute-force enumeration of the definition. Non-trivial: at least '
        'one triplet and at least one same-on pair of items that is not '
        'allowed to be A/X.')
ASSUMPTIONS = ['labels are not prefixes of one another up to a slash when '
               'used as by labels (HDF5 naming)']


def strategy(tier):
    return st.one_of(
        tasks.task_cases(max_rows=14, max_across=3, aux=True, missing=True,
                         twins=True, kinds='sssswwifbmm'),
        tasks.task_cases(max_rows=12, max_across=3, twins=True))


def fixed_cases(tier):
    yield tasks.big_case(2, 33)                 # ~70k triplets, 2 buffers
    yield tasks.big_case(3, 6, across=1, n_ac=3, by=2)
    yield tasks.huge_index_case()
    yield tasks.big_case(2, 12, across=1, n_ac=4)
    c = tasks.big_case(2, 2)
    c['pad'] = {'n': 300, 'where': 'front', 'mode': 'uniq', 'by': {}}
    yield c


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    expected = ref.triplets()
    total = sum(len(v) for v in expected.values())
    with core.quiet():
        task = tasks.make_task(ref, style=case.get('style', 0))
        task.generate_triplets(output='out.abx')
    if total == 0:
        core.require(not os.path.exists('out.abx'),
                     'no triplet is possible, yet a task file was written')
        info.cls('no triplets')
        return
    blocks = tasks.decode('out.abx', ref)
    tasks.compare_triplets(blocks, expected, ref=ref)
    # classes
    info.cls('across=%d' % len(ref.across))
    info.cls('by=%d' % len(ref.by))
    info.cls('several by blocks', len(blocks) > 1)
    info.cls('some by blocks without triplets',
             any(not v for v in expected.values()))
    info.cls('rows at the same place', bool(ref.twin))
    info.cls('rows dropped', len(ref.kept) < len(ref.rows))
    info.cls('aux files', bool(ref.aux))
    info.cls('item index > 127', any(len(b.src) > 128 for b in blocks))
    info.cls('item index > 255', any(len(b.src) > 256 for b in blocks))
    info.cls('more than 16k triplets', total > 16000)
    info.count('triplets', total)
    info.nontrivial = bool(ref.across) or total > 1
