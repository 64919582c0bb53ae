"""C17: indexed storage of labels, and compact integer types"""
import h5py
import numpy as np
from hypothesis import strategies as st

from harness import core
from harness.core import require, expect_raises

BUDGET = {'quick': {'cases': 4800, 'wall': 35},
          'thorough': {'cases': 30000, 'wall': 600}}
RULE = ('generated declarations (1-5 datasets: raw, indexed with own or '
        'shared indexes of 1-40 or up to 70000 labels, fused by 1-4), then '
        '1-5 writes in every accepted form (list, dict, iterator; labels or '
        'index values; several columns), decoded from the file with the '
        'stored indexes and key weights and compared with the labels '
        'written; inconsistent declarations. Also integer type fitting '
        'around every power of two. Non-trivial: an indexed or fused '
        'dataset received at least two different labels.')
ASSUMPTIONS = ['string data are indexed (raw datasets are numeric)']

NAMES = ['d0', 'd1', 'd2', 'B', 'a', 'Z9', 'on', 'é', 'talker 1', '10']
LABELS = ['t1', 't2', 'French', 'é', '', ' ', 'a b', '日本', '0', '1', 'x/y',
          'T1', '#', 'None', 'nan']


@st.composite
def cases(draw):
    if draw(st.integers(0, 9)) == 0:
        k = draw(st.integers(0, 70))
        return {'fit': draw(st.one_of(
            st.just(2 ** k), st.just(2 ** k - 1), st.just(2 ** k + 1),
            st.integers(0, 2 ** 66)))}
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n,
                          unique=True))
    mapping = draw(st.booleans())
    indexes, datasets = {}, {}
    n_idx = draw(st.integers(0, 3))
    for j in range(n_idx):
        if draw(st.integers(0, 11)) == 0:
            indexes['i%d' % j] = {'size': draw(st.sampled_from(
                [255, 256, 257, 300, 65536, 70000]))}
        elif draw(st.booleans()):
            indexes['i%d' % j] = draw(st.lists(
                st.sampled_from(LABELS), min_size=1, max_size=8,
                unique=True))
        else:
            indexes['i%d' % j] = draw(st.lists(
                st.integers(-5, 400), min_size=1, max_size=40, unique=True))
    for d in names:
        datasets[d] = draw(st.sampled_from([None] + sorted(indexes)))
    used = set(datasets.values()) - {None}
    indexes = {k: v for k, v in indexes.items() if k in used}
    if not mapping:
        # each indexed dataset has its own index, of the same name
        indexes = {d: indexes[i] for d, i in datasets.items() if i}
        datasets = {d: (d if i else None) for d, i in datasets.items()}
    indexed = [d for d in names if datasets[d]]
    fused = {}
    if indexed and draw(st.booleans()):
        for f in range(draw(st.integers(1, 2))):
            members = draw(st.lists(st.sampled_from(indexed), min_size=1,
                                    max_size=4, unique=True))
            fused['f%d' % f] = members
    case = {'mapping': mapping, 'names': names, 'datasets': datasets,
            'indexes': indexes, 'fused': fused,
            'group': draw(st.sampled_from(['/', '/', '/', 'sub']))}
    case['dims'] = {d: draw(st.sampled_from([1, 1, 1, 2, 3]))
                    for d in names}
    case['raw'] = {d: draw(st.sampled_from(['i', 'f', 'u1', 'f4']))
                   for d in names}
    case['writes'] = [
        {'n': draw(st.lists(st.integers(1, 30), min_size=1, max_size=3)),
         'form': draw(st.sampled_from(['dict', 'list'])),
         'iterate': draw(st.booleans()),
         'indexed': draw(st.booleans()),
         'seed': draw(st.integers(0, 10 ** 6))}
        for _ in range(draw(st.integers(1, 5)))]
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    # combinations of labels that just fit in a type
    for sizes in ([256], [256, 1], [1, 256, 1, 1], [255, 1], [128, 2],
                  [128, 2, 1], [257, 1], [256, 256, 1], [65536, 1]):
        names = NAMES[:len(sizes)]
        yield {'mapping': True, 'names': names,
               'datasets': {d: d for d in names},
               'indexes': {d: {'size': k} for d, k in zip(names, sizes)},
               'fused': {'f0': names}, 'group': '/',
               'dims': {d: 1 for d in names}, 'raw': {d: 'i' for d in names},
               'writes': [{'n': [40, 30], 'form': 'dict', 'iterate': False,
                           'indexed': True, 'seed': k} for k in range(4)]}


def labels_of(v):
    if isinstance(v, dict):
        return ['l%d' % k for k in range(v['size'])]
    return v


def fit(case, info):
    from ABXpy.misc.type_fitting import fit_integer_type
    n = case['fit']
    for signed, kinds in ((True, 'int8 int16 int32 int64'),
                          (False, 'uint8 uint16 uint32 uint64')):
        kinds = [np.dtype(k) for k in kinds.split()]
        ok = [k for k in kinds if n <= np.iinfo(k).max]
        if not ok:
            expect_raises(lambda: fit_integer_type(n, is_signed=signed),
                          (ValueError,), 'fitting a type for %d' % n)
            continue
        got = np.dtype(fit_integer_type(n, is_signed=signed))
        require(got == ok[0], 'integers up to %d (signed: %s) are given the '
                'type %s instead of %s', n, signed, got, ok[0])
    info.cls('type fitting')
    info.nontrivial = n > 100


def run_case(case, info):
    if 'fit' in case:
        return fit(case, info)
    from ABXpy.h5tools.h5io import H5IO
    names, datasets, fused = case['names'], case['datasets'], case['fused']
    indexes = {k: labels_of(v) for k, v in case['indexes'].items()}
    in_fused = {d for m in fused.values() for d in m}
    n_values = {f: 1 for f in fused}
    for f, m in fused.items():
        for d in m:
            n_values[f] *= len(indexes[datasets[d]]) ** case['dims'][d]
    too_big = any(v > 2 ** 64 for v in n_values.values())
    decl = {d: datasets[d] for d in names} if case['mapping'] else list(names)
    order = list(decl)
    # several columns can only be written as index values
    if any(case['dims'][d] > 1 and datasets[d] for d in names):
        for w in case['writes']:
            w['indexed'] = True

    h = H5IO('f.h5', decl, indexes, fused, group=case['group'])
    expect_raises(lambda: h.write([[0]] * len(names)), (RuntimeError,),
                  'writing outside of a with statement')
    want = {d: [] for d in names}

    def chunk(rng, n, w):
        data = {}
        for d in names:
            dim = case['dims'][d]
            if datasets[d]:
                idx = indexes[datasets[d]]
                v = rng.randint(0, len(idx), size=(n, dim))
                if len(idx) > 100:      # the highest codes too
                    v[0, 0] = len(idx) - 1
                want[d].extend([tuple(idx[i] for i in r) for r in v])
                if w['indexed']:
                    data[d] = v if dim > 1 or rng.randint(2) \
                        else v[:, 0].tolist()
                else:
                    data[d] = [idx[i] for i in v[:, 0]]
            else:
                kind = case['raw'][d]
                v = rng.randint(0, 200, size=(n, dim))
                if kind[0] == 'f':
                    v = v / 4.
                if kind in ('u1', 'f4'):
                    v = v.astype(kind)
                want[d].extend(map(tuple, v.tolist()))
                data[d] = v if dim > 1 or kind in ('u1', 'f4') \
                    else v[:, 0].tolist()
        if w['form'] == 'list':
            return [data[d] for d in order]
        return data

    def write_all():
        with h:
            for w in case['writes']:
                rng = np.random.RandomState(w['seed'])
                if w['iterate']:
                    h.write((chunk(rng, n, w) for n in w['n']), iterate=True,
                            indexed=w['indexed'])
                else:
                    h.write(chunk(rng, w['n'][0], w), indexed=w['indexed'])
    if too_big:
        expect_raises(write_all, (ValueError,),
                      'fusing more combinations than 64 bits can tell apart')
        info.cls('more than 64 bits')
        return
    write_all()

    with h5py.File('f.h5', 'r') as f:
        g = f[case['group']]
        total = len(want[names[0]])

        def index_of(d):
            k = list(g['indexed_datasets'][...]).index(d)
            name = g['indexed_datasets_indexes'][k]
            stored = list(g['indexes'][name][...])
            require(stored == indexes[datasets[d]],
                    'the index of %s is stored as %s instead of %s', d,
                    stored[:9], indexes[datasets[d]][:9])
            return stored
        for d in names:
            if datasets[d] is None:
                got = f[d][...]
                require(list(map(tuple, got.tolist())) == want[d],
                        'raw dataset %s holds %s instead of %s', d,
                        got[:5], want[d][:5])
                if case['raw'][d] in ('u1', 'f4'):
                    require(got.dtype == np.dtype(case['raw'][d]),
                            'raw dataset %s has type %s', d, got.dtype)
        plain = [d for d in names if datasets[d] and d not in in_fused]
        require(plain == [] or 'non_fused_datasets' in g,
                'no record of the indexed datasets')
        if plain:
            stored = list(g['non_fused_datasets'][...])
            require(sorted(stored) == sorted(plain), 'indexed datasets are '
                    'recorded as %s', stored)
            ends = [int(x) for x in g['indexed_cumudims'][...]]
            codes = g['indexed_data'][...]
            require(codes.shape == (total, sum(case['dims'][d]
                                               for d in plain)),
                    'index values have shape %s', codes.shape)
            for d, lo, hi in zip(stored, [0] + ends[:-1], ends):
                idx = index_of(d)
                got = [tuple(idx[int(c)] for c in r)
                       for r in codes[:, lo:hi]]
                require(got == want[d], 'dataset %s reads back as %s '
                        'instead of %s', d, got[:5], want[d][:5])
        for name, members in fused.items():
            i = g['fused'][name]
            order_ = list(i['datasets'][...])
            require(order_ == members, 'members of %s are stored as %s',
                    name, order_)
            weights = [int(x) for x in i['key_weights'][...]]
            keys = g[name][...]
            require(keys.shape == (total, 1), 'fused keys have shape %s',
                    keys.shape)
            cols = [(d, c) for d in members for c in range(case['dims'][d])]
            got = {c: [] for c in cols}
            for key in keys[:, 0]:
                key = int(key)
                for c, w in list(zip(cols, weights))[::-1]:
                    got[c].append(key // w)
                    key %= w
            for d, c in cols:
                idx = index_of(d)
                w = [r[c] for r in want[d]]
                require(all(k < len(idx) for k in got[d, c]) and
                        [idx[k] for k in got[d, c]] == w,
                        'fused dataset %s reads back %s for %s', name,
                        got[d, c][:5], w[:5])
    again = H5IO('f.h5', group=case['group'])
    require(not again.is_empty and set(again.managed_datasets) == set(names),
            'the file is reloaded with other datasets')
    for d in names:
        if datasets[d]:
            k = again.indexed_datasets.index(d)
            require(again.indexes[again.indexed_datasets_indexes[k]] ==
                    indexes[datasets[d]], 'the index of %s is reloaded '
                    'differently', d)
    info.cls('mapping', case['mapping'])
    info.cls('fused', bool(fused))
    info.cls('raw', any(v is None for v in datasets.values()))
    info.cls('shared index', len(set(datasets.values()) - {None}) <
             len([v for v in datasets.values() if v]))
    info.cls('several columns', any(case['dims'][d] > 1 for d in names))
    info.cls('large index', any(len(v) > 255 for v in indexes.values()))
    info.count('rows', total)
    info.nontrivial = any(len(set(want[d])) > 1 for d in names
                          if datasets[d])
    inconsistent(case, indexes)


def inconsistent(case, indexes):
    from ABXpy.h5tools.h5io import H5IO
    names, datasets = case['names'], case['datasets']
    bad = dict(indexes)
    bad['unknown'] = ['a']
    decl = {d: datasets[d] for d in names} if case['mapping'] else list(names)
    expect_raises(lambda: H5IO('g.h5', decl, bad), (ValueError,),
                  'an index for no dataset')
    raw = [d for d in names if datasets[d] is None]
    if raw:
        expect_raises(lambda: H5IO('g.h5', decl, indexes, {'z': [raw[0]]}),
                      (ValueError,), 'fusing a dataset without index')
    if case['mapping'] and indexes:
        fewer = dict(indexes)
        fewer.pop(sorted(fewer)[0])
        expect_raises(lambda: H5IO('g.h5', decl, fewer), (ValueError,),
                      'a missing index')
    expect_raises(lambda: H5IO('nope.h5'), (IOError,),
                  'opening a missing file')
    if len(names) > 1:
        def partial():
            with H5IO('p.h5', decl, indexes) as h:
                h.write({names[0]: [0]}, indexed=True)
        expect_raises(partial, (ValueError,), 'writing some datasets only')
    own = [d for d in names if datasets[d]]
    if own:
        def stranger():
            with H5IO('q.h5', decl, indexes) as h:
                h.write({d: (['no such label'] if datasets[d] else [1])
                         for d in names})
        expect_raises(stranger, (ValueError,), 'writing an unknown label')

        def outside():
            values = {d: [0] for d in names}
            d = own[case['writes'][0]['seed'] % len(own)]
            n = len(indexes[datasets[d]])
            values[d] = [[0, n], [-1], [n + 255, 0], [256 * n]][
                case['writes'][0]['seed'] % 4]
            for other in names:
                values[other] = (values[other] * 2)[:len(values[d])]
            with H5IO('o.h5', decl, indexes, fused=(case['fused'] or None)) \
                    as h:
                h.write({d: np.array(v) for d, v in values.items()},
                        indexed=True)
        expect_raises(outside, (ValueError,),
                      'writing an index value outside of the index')
