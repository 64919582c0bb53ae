"""C04: regressors stored with each triplet are its true labels"""
from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 3000, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1500}}
RULE = ('generated item files, 0-3 extra regressors of every role and '
        'extension, 0-2 filters, optional threshold; every regressor stored '
        'for every triplet is decoded and compared with the label of the '
        'source row of A, B or X. Non-trivial: a regressor takes two '
        'different values within one by block.')
ASSUMPTIONS = ['regressors are names of columns (computed regressors are '
               'not part of the property)']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=4, max_rows=14, max_across=2,
                                 aux=True, pads=True, missing=True,
                                 pad_sizes=(5, 10, 40, 130, 260, 300),
                                 kinds='sssswwif'))
    role = tasks.roles(case)
    default = {c + e for c in role if role[c] in ('on', 'across')
               for e in ('_1', '_2')}
    names = sorted(c + e for c in role for e in tasks.valid_exts(role[c]))
    names = [n for n in names if n not in default]
    case['regressors'] = draw(st.lists(st.sampled_from(names), max_size=3,
                                       unique=True))
    if draw(st.sampled_from([0, 0, 0, 0, 0, 1])) and \
            all(c[1] != 'b' for c in case['cols']):
        # columns with more labels than fit in 8 bits
        case['pad'] = {'n': draw(st.sampled_from([254, 257, 300])),
                       'where': draw(st.sampled_from(['front', 'back'])),
                       'mode': 'low', 'by': {c: 0 for c in case['by']}}
        extra = [n for n in names if role[tasks.split_ext(n)[0]] == 'other']
        if extra:
            case['regressors'].insert(
                draw(st.integers(0, len(case['regressors']))),
                draw(st.sampled_from(extra)))
            case['regressors'] = list(dict.fromkeys(case['regressors']))
    if draw(st.booleans()):
        case['filters'] = draw(st.lists(
            tasks.filter_specs(case, ('by', 'generic', 'ext', 'ext')),
            min_size=1, max_size=2))
    case['threshold'] = draw(st.sampled_from([None, None, 1, 2, 5]))
    case['seed'] = draw(st.integers(0, 3))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    # more than 127 and 255 distinct labels, several buffers
    c = tasks.big_case(2, 20)
    c['cols'].append(['word', 's', 300])
    c['rows'] = [r + [i * 7 % 300] for i, r in enumerate(c['rows'])]
    c['pad'] = {'n': 280, 'where': 'front', 'mode': 'uniq', 'by': {}}
    c['regressors'] = ['word_A', 'word_B', 'word_X']
    c['across'] = []
    c['pad']['n'] = 60
    yield c
    c = tasks.big_case(3, 8, across=1, n_ac=3, by=2)
    c['cols'].append(['word', 'w', 5])
    c['rows'] = [r + [i * 7 % 5] for i, r in enumerate(c['rows'])]
    c['regressors'] = ['word_A', 'word_B', 'ctx', 'phone_AX']
    yield c
    d = dict(c, threshold=2)
    yield d
    # 300 labels, of which each triplet compares two neighbours: the first
    # triplets use the lowest labels only, the last ones the highest
    c = tasks.big_case(300, 1, across=1)
    c['cols'].append(['grp', 's', 150])
    c['rows'] = [r + [r[0] // 2] for r in c['rows']]
    c['filters'] = [{'op': 'eq', 'vars': ['grp_A', 'grp_B'],
                     'form': 'inline'}]
    c['regressors'] = ['grp_A', 'grp_X']
    yield c
    yield dict(c, rows=c['rows'][::-1], threshold=1, seed=1)


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    keep, by_ok, pred = tasks.filtered(ref, fs)
    expected = ref.triplets(keep, by_ok, pred)
    total = sum(len(v) for v in expected.values())
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None,
                               regressors=list(case['regressors']),
                               style=case.get('style', 0))
        task.generate_triplets(output='out.abx',
                               threshold=case.get('threshold'),
                               seed=case.get('seed', 0))
    if total == 0:
        info.cls('no triplets')
        return
    want = set(ref.default_regressors()) | set(case['regressors'])
    varied = False
    for b in tasks.decode('out.abx', ref, with_regressors=True):
        core.require(set(b.regressors) == want,
                     'regressors stored: %r, wanted: %r',
                     sorted(b.regressors), sorted(want))
        for name, values in b.regressors.items():
            seen = set()
            cache = {}
            for k, (t, v) in enumerate(zip(b.triplets, values)):
                v = cache.setdefault(v, tasks.norm(v)) if \
                    isinstance(v, str) else tasks.norm(v)
                w = tasks.norm(ref.regressor(name, *t))
                core.require(v == w, 'triplet %r (source rows) of by %r: '
                             'regressor %s is %r instead of %r',
                             t, b.by, name, v, w)
                seen.add(v)
            varied = varied or len(seen) > 1
            info.count('values checked', len(values))
        if case.get('threshold') is None:
            core.require(len(b.triplets) == len(expected[b.key]),
                         'by %r: %d triplets instead of %d', b.by,
                         len(b.triplets), len(expected[b.key]))
    role = tasks.roles(case)
    for r in case['regressors']:
        c, e = tasks.split_ext(r)
        info.cls('regressor %s%s' % (role[c], e))
    info.cls('filters', bool(fs))
    info.cls('more than 255 labels', (case.get('pad') or {'n': 0})['n'] > 250
             and case['pad']['mode'] != 'same')
    info.cls('threshold', case.get('threshold') is not None)
    info.cls('aux', bool(ref.aux))
    info.nontrivial = varied
