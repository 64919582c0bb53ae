"""C23: generated corpora, and comparison of files"""
import collections
import itertools
import os
import shutil

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import core
from ..core import require

BUDGET = {'quick': {'cases': 3000, 'wall': 30},
          'thorough': {'cases': 20000, 'wall': 600}}
RULE = ('item files of 1-4 values for 1-4 columns with 0-3 repeats (up to '
        '300 rows), with numeric or named labels, and their features, of 1-4 '
        'dimensions and 1-9 frames, in a new file or over another one; '
        'pairs of tables of 0-7 rows and 1-4 columns, the second being a '
        'permutation or an alteration of the first, and pairs of HDF5 files. '
        'Oracle: the complete design, and multisets of rows. Non-trivial: '
        'more than one combination of labels, or tables that differ.')
ASSUMPTIONS = ['the columns of compared tables are text, or numbers written '
               'in the same way']

LABELS = ['a', 'b', 'p q', 'é', '0.5', '12', "('x', 'y')", 'A']


@st.composite
def cases(draw):
    if draw(st.sampled_from([0, 0, 1])):
        base = draw(st.integers(1, 4))
        n = draw(st.integers(1, 4 if base < 3 else 3 if base < 4 else 2))
        return {'what': draw(st.sampled_from(['items', 'named', 'both'])),
                'base': base, 'n': n, 'repeats': draw(st.integers(0, 3)),
                'dim': draw(st.integers(1, 4)),
                'frames': draw(st.integers(1, 9)),
                'old': draw(st.booleans()),
                'seed': draw(st.integers(0, 10 ** 6))}
    cols = draw(st.lists(st.sampled_from(['on', 'by', 'n', 'score', 'c_1']),
                         min_size=1, max_size=4, unique=True))
    rows = draw(st.lists(st.tuples(*[
        st.sampled_from(LABELS[:2 + k]) if c in ('on', 'by', 'c_1') else
        st.integers(0, 3) if c == 'n' else
        st.sampled_from([0.5, -1.25, 0.1, 2e-7])
        for k, c in enumerate(cols)]).map(list), max_size=7))
    return {'what': draw(st.sampled_from(['csv', 'csv', 'csv', 'h5'])),
            'cols': cols, 'rows': rows,
            'change': draw(st.sampled_from(
                ['none', 'cell', 'cell', 'drop', 'twice', 'rename', 'swap',
                 'column'])),
            'at': [draw(st.integers(0, 30)) for _ in range(3)],
            'perm': draw(st.booleans()), 'shuffle': draw(st.booleans()),
            'sep': draw(st.sampled_from(['\t', '\t', ',', ';'])),
            'seed': draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return cases()


def run_case(case, info):
    info.cls(case['what'])
    if case['what'] == 'csv':
        tables(case, info)
    elif case['what'] == 'h5':
        h5files(case, info)
    else:
        corpus(case, info)


def corpus(case, info):
    from ABXpy.misc import items
    base, n, repeats = case['base'], case['n'], case['repeats']
    what = case['what']
    if case['old'] and what == 'both':
        shutil.copyfile(__file__, 'f.h5f')
    np.random.seed(case['seed'])
    with core.quiet():
        if what == 'items':
            items.generate_testitems(base, n, repeats, name='x.item')
        elif what == 'named':
            items.generate_named_testitems(base, n, repeats, name='x.item')
        else:
            items.generate_db_and_feat(base, n, repeats, 'x.item',
                                       case['dim'], case['frames'], 'f.h5f')
    with open('x.item') as f:
        lines = [line.split() for line in f.read().splitlines()]
    head, rows = lines[0], lines[1:]
    require(head[:3] == ['#file', 'onset', 'offset'] and
            head[3][:1] == '#' and head[4:] == ['c%d' % k for k in range(n)],
            'the header is %s', head)
    require(all(len(r) == n + 4 for r in rows), 'rows have %s cells',
            sorted({len(r) for r in rows}))
    files = [r[0] for r in rows]
    require(len(set(files)) == len(files), 'files are not distinct')

    def label(j, v):
        return str(v) if what == 'items' else 'c%d_v%d' % (j, v)
    want = collections.Counter()
    for combo in itertools.product(range(base), repeat=n):
        want[tuple(label(j, v) for j, v in enumerate(combo))] = repeats + 1
    got = collections.Counter(tuple(r[4:]) for r in rows)
    require(got == want, 'combinations of labels: %s instead of %s',
            sorted(got.items())[:9], sorted(want.items())[:9])
    if what == 'both':
        import h5features
        import ABXpy.verify
        with core.quiet():
            ABXpy.verify.check('x.item', 'f.h5f')
            times, feats = h5features.read('f.h5f', 'features')[:2]
        require(set(feats) == set(files), 'features of %s instead of %s',
                sorted(feats)[:9], sorted(files)[:9])
        for name in files:
            k = len(feats[name])
            require(1 <= k <= case['frames'] and
                    feats[name].shape == (k, case['dim']) and
                    len(np.ravel(times[name])) == k and
                    np.isfinite(feats[name]).all(),
                    'features of %s have shape %s and %d times', name,
                    feats[name].shape, len(np.ravel(times[name])))
    if base > 1:
        info.nontrivial = True


def write(name, cols, rows, sep):
    with open(name, 'w', encoding='utf8') as f:
        for r in [cols] + rows:
            f.write(sep.join(map(str, r)) + '\n')


def altered(case):
    cols, rows = list(case['cols']), [list(r) for r in case['rows']]
    change = case['change']
    a, b, c = case['at']
    if change == 'rename':
        cols[a % len(cols)] = 'other'
    elif change == 'column' and len(cols) > 1:
        k = a % len(cols)
        cols = cols[:k] + cols[k + 1:]
        rows = [r[:k] + r[k + 1:] for r in rows]
    elif rows:
        i, j, k = a % len(rows), b % len(rows), c % len(cols)
        if change == 'cell':
            v = rows[i][k]
            rows[i][k] = v + 'x' if isinstance(v, str) else v + 1
        elif change == 'drop':
            del rows[i]
        elif change == 'twice':
            rows.append(list(rows[i]))
        elif change == 'swap':
            rows[i][k], rows[j][k] = rows[j][k], rows[i][k]
    rng = np.random.RandomState(case['seed'])
    if case['perm']:
        order = rng.permutation(len(cols))
        cols = [cols[k] for k in order]
        rows = [[r[k] for k in order] for r in rows]
    if case['shuffle']:
        rows = [rows[k] for k in rng.permutation(len(rows))]
    return cols, rows


def content(cols, rows):
    return sorted(cols), collections.Counter(
        tuple(v for _, v in sorted(zip(cols, r))) for r in rows)


def tables(case, info):
    from ABXpy.misc import items
    cols, rows = altered(case)
    same = content(cols, rows) == content(case['cols'], case['rows'])
    write('a.csv', case['cols'], case['rows'], case['sep'])
    write('b.csv', cols, rows, case['sep'])
    kw = {} if case['sep'] == '\t' else {'sep': case['sep']}
    for f1, f2 in (('a.csv', 'b.csv'), ('b.csv', 'a.csv')):
        got = items.csv_cmp(f1, f2, **kw)
        require(bool(got) == same, 'tables that are %s are said %s: %s',
                'the same' if same else 'different',
                'the same' if got else 'different', (case['change'], rows))
    info.cls('same' if same else case['change'])
    info.nontrivial = not same


def h5files(case, info):
    from ABXpy.misc import items
    if not shutil.which('h5diff'):
        return
    rng = np.random.RandomState(case['seed'])
    data = {'a': rng.randint(0, 9, (4, 2)), 'g/b': rng.randn(5)}
    change = case['change']
    for name in ('x.h5', 'y.h5'):
        with h5py.File(name, 'w') as f:
            for d, v in data.items():
                v = v.copy()
                if name == 'y.h5' and change in ('cell', 'swap') and d == 'a':
                    v[case['at'][0] % 4, case['at'][1] % 2] += 1
                if name == 'y.h5' and change == 'drop' and d == 'g/b':
                    v = v[:-1]
                if not (name == 'y.h5' and change == 'column' and
                        d == 'g/b'):
                    f[d] = v
    same = change not in ('cell', 'swap', 'drop', 'column')
    got = items.h5cmp('x.h5', 'y.h5')
    require(bool(got) == same, 'HDF5 files that are %s are said %s (%s)',
            'the same' if same else 'different',
            'the same' if got else 'different', change)
    info.nontrivial = not same
