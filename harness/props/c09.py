"""C09: the results table"""
import math

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 3800, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1200}}
RULE = ('generated tasks (extra regressors, filters, thresholds) with '
        'generated scores in {-1, 0, 1}; each row of the results table is '
        'compared with the mean of (score+1)/2 and the number of triplets '
        'over the group of triplets that have the same labels, computed '
        'from the source rows; every group appears exactly once. '
        'Non-trivial: at least two groups, one of them with at least two '
        'triplets.')
ASSUMPTIONS = ['labels contain no tab and no end of line']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=4, max_rows=14, max_across=2,
                                 aux=True, missing=True, pads=True,
                                 kinds='sssswwif', pad_sizes=(5, 20, 130)))
    if not case['across'] and case.get('pad'):
        case['pad']['n'] = 10
    role = tasks.roles(case)
    default = {c + e for c in role if role[c] in ('on', 'across')
               for e in ('_1', '_2')}
    names = sorted(c + e for c in role for e in tasks.valid_exts(role[c]))
    names = [n for n in names if n not in default]
    case['regressors'] = draw(st.lists(st.sampled_from(names), max_size=3,
                                       unique=True))
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(
            case, ('generic', 'ext')))]
    case['threshold'] = draw(st.sampled_from([None, None, None, 2]))
    case['sseed'] = draw(st.integers(0, 10 ** 6))
    case['balance'] = draw(st.sampled_from([[-1, 0, 1], [1, 1, 1, 0], [-1],
                                            [0], [-1, 1]]))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    c = tasks.big_case(2, 33)
    c.update(regressors=[], sseed=3, balance=[-1, 0, 1], threshold=None)
    yield c
    # many triplets, the labels of the last ones being new
    c = tasks.big_case(3, 8, across=1, n_ac=4)
    c.update(regressors=[], sseed=3, balance=[-1, 0, 1], threshold=None)
    yield c
    c = tasks.big_case(4, 10, across=1, n_ac=4)
    c['cols'].append(['word', 's', 9])
    c['rows'] = [r + [i * 9 // len(c['rows'])]
                 for i, r in enumerate(c['rows'])]
    c.update(regressors=['word_A'], sseed=3, balance=[-1, 0, 1],
             threshold=None)
    yield c
    # many groups: combinations of labels beyond 16 bits
    c = tasks.big_case(3, 5, across=1, n_ac=3)
    c['cols'] += [['word', 's', 60], ['take', 'i', 60]]
    c['rows'] = [r + [i * 7 % 60, i * 11 % 60]
                 for i, r in enumerate(c['rows'])]
    c.update(regressors=['word_A', 'word_B', 'take_X', 'take_A'], sseed=3,
             balance=[-1, 0, 1], threshold=None)
    yield c
    # the highest label of an index is the highest of its type
    for n in (255, 256, 257):
        c = {'cols': [['phone', 's', 3], ['talker', 's', 2],
                      ['word', 'i', n]],
             'rows': [[0, 0, k] for k in range(n)] +
             [[0, 1, 0], [1, 0, 0], [2, 0, 0]], 'on': 'phone',
             'across': ['talker'], 'by': [], 'style': 0}
        c.update(regressors=['word_A'], sseed=n, balance=[-1, 0, 1],
                 threshold=None)
        yield c
    # combinations of labels beyond 64 bits
    rows = [[0] + [(k * m) % 64 for m in range(1, 25, 2)] + [k % 64]
            for k in range(64)] + [[1] + [0] * 12 + [k] for k in (0, 16, 32)]
    c = {'cols': [['phone', 's', 2]] + [['c%d' % m, 'i', 64]
                                        for m in range(12)] +
         [['word', 's', 64]], 'rows': rows, 'on': 'phone', 'across': [],
         'by': [], 'style': 0}
    c.update(regressors=['c%d_A' % m for m in range(12)] + ['word_B'] +
             ['c%d_X' % m for m in range(12)], sseed=3,
             balance=[-1, 0, 1], threshold=None)
    yield c


def run_case(case, info):
    import ABXpy.analyze
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None,
                               regressors=list(case['regressors']))
        total = task.stats['nb_triplets']
        task.generate_triplets(output='out.abx', seed=0,
                               threshold=case.get('threshold'))
    if not total:
        info.cls('no triplets')
        return
    blocks = tasks.decode('out.abx', ref)
    n = sum(len(b.raw) for b in blocks)
    rng = np.random.RandomState(case['sseed'])
    pool = np.array(case['balance'], dtype=np.int8)
    s = pool[rng.randint(0, len(pool), size=n)]
    with h5py.File('out.score', 'w') as f:
        f.create_dataset('scores', data=s.reshape(-1, 1))
    with core.quiet():
        ABXpy.analyze.analyze('out.abx', 'out.score', 'out.csv')
    names = ref.default_regressors() + list(case['regressors'])
    want = {}
    for b in blocks:
        for k, t in enumerate(b.triplets):
            key = (b.by,) + tuple(tasks.norm(ref.regressor(r, *t))
                                  for r in names)
            want.setdefault(key, []).append(int(s[b.range[0] + k]))
    got = read_table('out.csv', names)
    compare_tables(got, {
        k: (math.fsum((v + 1) / 2. for v in vs) / len(vs), len(vs))
        for k, vs in want.items()}, names)
    info.count('groups', len(want))
    info.cls('several by blocks', len(blocks) > 1)
    info.cls('extra regressors', bool(case['regressors']))
    info.cls('threshold', case.get('threshold') is not None)
    info.nontrivial = len(want) > 1 and any(len(v) > 1
                                            for v in want.values())


def read_table(path, names):
    """{(by, labels...): (score, n)}"""
    with open(path, encoding='utf8', newline='') as f:
        lines = f.read().split('\n')
    core.require(lines[-1] == '', 'the table does not end with a new line')
    head = lines[0].split('\t')
    core.require(sorted(head) == sorted(names + ['by', 'score', 'n']),
                 'columns %r, wanted %r and by, score, n', head, names)
    out = {}
    for line in lines[1:-1]:
        cells = line.split('\t')
        core.require(len(cells) == len(head), 'row %r for columns %r',
                     cells, head)
        row = dict(zip(head, cells))
        key = (row['by'],) + tuple(tasks.norm(row[r]) for r in names)
        core.require(key not in out, 'group %r appears twice', key)
        out[key] = (float(row['score']), int(row['n']))
    return out


def compare_tables(got, want, names):
    if set(got) != set(want):
        raise core.Violation('groups (by, %s): missing %r, in excess %r' % (
            ', '.join(names), sorted(set(want) - set(got))[:2],
            sorted(set(got) - set(want))[:2]))
    for k, (score, n) in want.items():
        core.require(got[k][1] == n, 'group %r: n is %r instead of %r', k,
                     got[k][1], n)
        core.require(abs(got[k][0] - score) < 1e-9, 'group %r: score %r '
                     'instead of %r', k, got[k][0], score)
