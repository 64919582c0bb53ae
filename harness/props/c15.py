"""C15: buffered writing and reading of arrays in HDF5 files"""
import h5py
import numpy as np
from hypothesis import strategies as st

from harness.core import Violation, require, quiet, expect_raises

BUDGET = {'quick': {'cases': 9000, 'wall': 35},
          'thorough': {'cases': 60000, 'wall': 600}}
RULE = ('generated histories: 1-3 datasets (10 element types, 1-4 columns, '
        'declared or open length, new or overwritten), buffers of 1-40 rows or less than a row, '
        'interleaved writes of 0-100 rows, an optional error in the middle, '
        'undeclared amounts, repeated flushes; then interleaved reads (any amount, whole '
        'buffer, iteration, sub-ranges) with other buffers. Oracle: lists of '
        'rows. Non-trivial: more rows than a buffer were written and read '
        'back in at least two reads.')
ASSUMPTIONS = []

DTYPES = ['u1', 'u2', 'u4', 'u8', 'i1', 'i2', 'i4', 'i8', 'f4', 'f8']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    dsets = []
    for i in range(n):
        dsets.append({
            'group': draw(st.sampled_from(['/', 'g', '/a/b', 'g/h'])),
            'name': 'd%d' % i,
            'cols': draw(st.integers(1, 4)),
            'dtype': draw(st.sampled_from(DTYPES)),
            'buf': draw(st.integers(0, 40)),
            'kind': draw(st.sampled_from(
                ['fixed', 'fixed', 'open', 'open', 'over', 'guess']))})
    ops = draw(st.lists(st.tuples(
        st.integers(0, n - 1),
        st.one_of(st.integers(0, 12), st.integers(-4, 100))),
        max_size=14))
    case = {
        'handle': draw(st.booleans()), 'dsets': dsets,
        'ops': [list(o) for o in ops],
        'error': draw(st.one_of(
            st.none(), st.none(), st.none(),
            st.integers(0, max(len(ops), 1)))),
        'wrong': draw(st.sampled_from([0, 0, 0, 0, -1, 1, 7])),
        'cast': draw(st.booleans()),
    }
    reads = []
    for _ in range(draw(st.integers(1, 3))):
        reads.append({
            'd': draw(st.integers(0, n - 1)),
            'buf': draw(st.integers(0, 40)),
            'portion': draw(st.sampled_from([0, 0.01, 0.25, 0.5, 0.9, 1.0])),
            'sub': draw(st.one_of(st.none(), st.tuples(
                st.integers(0, 100), st.integers(0, 100)).map(list))),
            'all': draw(st.booleans())})
    case['reads'] = reads
    case['seq'] = [list(s) for s in draw(st.lists(st.tuples(
        st.integers(0, len(reads) - 1),
        st.one_of(st.none(), st.integers(1, 9), st.integers(1, 120),
                  st.just('iter'))),
        max_size=12))]
    return case


def strategy(tier):
    return cases()


def rows(d, start, n):
    """n rows whose values tell where they belong"""
    dt = np.dtype(d['dtype'])
    k = np.arange(start, start + n, dtype=np.int64)[:, None] * d['cols'] + \
        np.arange(d['cols'])[None, :] + 1
    if dt.kind == 'f':
        return (k * 0.5).astype(dt)
    hi = np.iinfo(dt).max
    return (k % hi).astype(dt) if hi < 2 ** 40 else k.astype(dt)


class Boom(Exception):
    pass


def kb(n_rows, d):
    # 0: a buffer smaller than a row
    return (n_rows or 0.3) * np.dtype(d['dtype']).itemsize * d['cols'] / 1000.


def run_case(case, info):
    from ABXpy.h5tools.np2h5 import NP2H5
    from ABXpy.h5tools.h52np import H52NP
    dsets, ops = case['dsets'], case['ops']
    totals = [0] * len(dsets)
    for i, n in ops:
        totals[i] += max(n, 0)          # negative: an explicit flush
    declared = []
    for i, d in enumerate(dsets):
        n = totals[i]
        if d['kind'] in ('fixed', 'over'):
            if i == 0 and case['wrong']:
                n = max(n + case['wrong'], 1)
            if n == 0:
                d['kind'] = 'open'
        declared.append(n)
    wrong = [i for i, d in enumerate(dsets) if d['kind'] in (
        'fixed', 'over') and declared[i] != totals[i]]

    bystander = np.arange(12).reshape(6, 2)
    with h5py.File('f.h5', 'w') as f:
        f.create_dataset('other/x', data=bystander)
        for i, d in enumerate(dsets):
            if d['kind'] == 'over':
                f.create_dataset(d['group'] + '/' + d['name'], data=np.ones(
                    (declared[i], d['cols']), dtype=d['dtype']) * 3)
    handle = h5py.File('f.h5', 'a') if case['handle'] else None
    target = handle if case['handle'] else 'f.h5'

    at = case['error']
    if at is not None:
        at = min(at, len(ops))
    raised = None
    written = [0] * len(dsets)
    try:
        with NP2H5(target) as out:
            bufs = []
            for i, d in enumerate(dsets):
                if d['kind'] == 'open':
                    kw = dict(fixed_size=False)
                elif d['kind'] == 'guess':
                    kw = dict(fixed_size=False, n_rows=totals[i] // 2)
                else:
                    kw = dict(n_rows=declared[i],
                              overwrite=d['kind'] == 'over')
                bufs.append(out.add_dataset(
                    d['group'], d['name'], n_columns=d['cols'],
                    buf_size=kb(d['buf'], d), item_type=d['dtype'], **kw))
            for k, (i, n) in enumerate(ops):
                if at == k:
                    raise Boom()
                if n < 0:
                    bufs[i].flush()
                    continue
                data = rows(dsets[i], written[i], n)
                if case['cast'] and data.dtype.kind in 'iu':
                    data = data.astype(np.int64)
                bufs[i].write(data)
                data[:] = 0     # what was written must have been copied
                written[i] += n
            if at == len(ops):
                raise Boom()
    except Exception as e:
        raised = e
    if handle is not None:
        require(bool(handle), 'the file handle of the caller was closed')
        handle.close()

    longer = [i for i in wrong if totals[i] > declared[i]]
    if at is not None and not longer:
        require(isinstance(raised, Boom),
                'an error in the with block became %r', raised)
    elif at is None and not wrong:
        require(raised is None, 'writing failed: %r', raised)
    elif at is None:
        require(raised is not None, 'wrote %s rows where %s were declared '
                'and nothing complained', totals, declared)
    info.cls('error', at is not None)
    info.cls('explicit flush', any(n < 0 for _, n in ops))
    info.cls('wrong amount', bool(wrong))
    info.cls('handle', case['handle'])
    for d in dsets:
        info.cls('kind ' + d['kind'])

    with h5py.File('f.h5', 'r') as f:
        require(np.array_equal(f['other/x'][...], bystander),
                'an unrelated dataset was changed')
        for i, d in enumerate(dsets):
            path = d['group'] + '/' + d['name']
            if at is not None:
                if not longer:
                    require(path not in f, 'dataset %s is still there after '
                            'the error', path)
                continue
            if wrong:
                continue
            ds = f[path]
            require(ds.dtype == np.dtype(d['dtype']), 'dataset %s has type '
                    '%s', path, ds.dtype)
            want = rows(d, 0, totals[i])
            require(ds.shape == (totals[i], d['cols']),
                    'dataset %s has shape %s instead of %s', path, ds.shape,
                    (totals[i], d['cols']))
            got = ds[...]
            require(np.array_equal(got, want), 'dataset %s does not hold the '
                    'rows written: %s instead of %s', path, got[:8],
                    want[:8])
    if at is not None or wrong:
        if at is not None:
            retry(case, info)
        return
    refusals(case, declared, totals)
    reading(case, totals, info)


def retry(case, info):
    """after an error the same datasets can be written again"""
    from ABXpy.h5tools.np2h5 import NP2H5
    d = case['dsets'][0]
    if d['kind'] == 'over':
        return
    with h5py.File('f.h5', 'r') as f:
        if d['group'] + '/' + d['name'] in f:
            return
    with NP2H5('f.h5') as out:
        b = out.add_dataset(d['group'], d['name'], n_rows=5,
                            n_columns=d['cols'], buf_size=kb(2, d),
                            item_type=d['dtype'])
        b.write(rows(d, 0, 5))
    with h5py.File('f.h5', 'r') as f:
        require(np.array_equal(f[d['group'] + '/' + d['name']][...],
                               rows(d, 0, 5)), 'second attempt went wrong')


def refusals(case, declared, totals):
    from ABXpy.h5tools.np2h5 import NP2H5
    d = case['dsets'][0]
    before = open('f.h5', 'rb').read()

    def existing(**kw):
        def run():
            with NP2H5('f.h5') as out:
                out.add_dataset(d['group'], d['name'], n_columns=d['cols'],
                                buf_size=kb(d['buf'], d),
                                item_type=d['dtype'], **kw)
        return run
    expect_raises(existing(n_rows=declared[0] or 1), (IOError,),
                  'writing over an existing dataset')
    expect_raises(existing(n_rows=totals[0] + 1, overwrite=True), (IOError,),
                  'overwriting a dataset with another shape')
    expect_raises(existing(fixed_size=False), (IOError,),
                  'writing over an existing dataset')
    expect_raises(existing(fixed_size=False, overwrite=True), (ValueError,),
                  'overwriting without a fixed size')
    with h5py.File('f.h5', 'r') as f:
        require(np.array_equal(f[d['group'] + '/' + d['name']][...],
                               rows(d, 0, totals[0])),
                'a refused declaration changed the existing dataset')

    def outside():
        NP2H5('f.h5').add_dataset(d['group'], 'new', 3, 1)
    expect_raises(outside, (IOError,), 'use outside of a with statement')

    def late():
        with NP2H5('f.h5') as out:
            b = out.add_dataset('late', 'x', n_columns=1, fixed_size=False)
        b.write(np.zeros((2, 1)))
    expect_raises(late, (IOError,), 'writing after the with statement')


def reading(case, totals, info):
    from ABXpy.h5tools.h52np import H52NP
    handle = h5py.File('f.h5', 'r') if case['handle'] else None
    target = handle if case['handle'] else 'f.h5'
    nreads = 0
    with H52NP(target) as inp:
        expect_raises(lambda: inp.add_dataset('g', 'missing'), (IOError,),
                      'reading a missing dataset')
        bufs, left = [], []
        for r in case['reads']:
            d = case['dsets'][r['d']]
            n = totals[r['d']]
            kw = {}
            lo, hi = 0, n
            add = inp.add_dataset
            if r['sub'] is not None:
                add = inp.add_subdataset
                if not r['all']:
                    lo, hi = sorted(min(x, n) for x in r['sub'])
                    kw['indexes'] = (lo, hi)
                info.cls('sub-range', lo < hi)
            bufs.append(add(
                d['group'], d['name'], buf_size=kb(r['buf'], d),
                minimum_occupied_portion=r['portion'], **kw))
            left.append(rows(d, 0, n)[lo:hi])

        def step(k, amount):
            if amount == 'iter':
                try:
                    got = next(iter(bufs[k]))
                except StopIteration:
                    got = None
            else:
                try:
                    got = bufs[k].read(amount)
                except StopIteration:
                    got = None
            if not len(left[k]):
                require(got is None, 'read %s beyond the end', got)
                return False
            require(got is not None, 'nothing read with %d rows left',
                    len(left[k]))
            n = len(got)
            if amount in (None, 'iter'):
                require(0 < n <= len(left[k]), 'read %d rows with %d left',
                        n, len(left[k]))
            else:
                require(n == min(amount, len(left[k])), 'asked for %d rows, '
                        'got %d with %d left', amount, n, len(left[k]))
            require(got.dtype == left[k].dtype and np.array_equal(
                got, left[k][:n]), 'read %s instead of %s', got,
                left[k][:n])
            left[k] = left[k][n:]
            got[:] = 0
            return True
        for k, amount in case['seq']:
            require(bufs[k].isempty() == (len(left[k]) == 0),
                    'isempty is wrong')
            require(bufs[k].isempty() == (bufs[k].dataset_empty() and
                                          bufs[k].buffer_empty()),
                    'dataset_empty or buffer_empty is wrong')
            nreads += step(k, amount)
        for k in range(len(bufs)):
            expect_raises(lambda: bufs[k].read(0), (ValueError,),
                          'reading no row')
            guard = 0
            while len(left[k]):
                nreads += step(k, 'iter')
                guard += 1
                require(guard < 5000, 'iteration does not progress')
            require(bufs[k].isempty(), 'isempty is wrong at the end')
            step(k, 3)
    if handle is not None:
        require(bool(handle), 'the file handle of the caller was closed')
        handle.close()
    info.count('reads', nreads)
    for r in case['reads']:
        if totals[r['d']] > case['dsets'][r['d']]['buf'] and nreads >= 2:
            info.nontrivial = True
