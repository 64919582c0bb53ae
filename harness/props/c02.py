"""C02: filters keep exactly the triplets that satisfy them"""
import os

from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 5600, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1500}}
RULE = ('generated item files with 1-3 generated filters (column names, '
        'inline comprehensions, .py scripts with several statements and '
        'imports, some changing their variables in place, functions, '
        'generators, lambdas, arrays or numbers as truth values) over 1-3 '
        'variables of every role and extension; expected triplets '
        'come from brute-force enumeration followed by the '
        'predicate of each filter. Non-trivial: some triplet is kept and '
        'some triplet is removed by the filters.')
ASSUMPTIONS = ['filters only compare labels (equality, membership, truth '
               'value)', 'labels used by filters are not missing booleans']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=6, max_rows=14, max_across=2, aux=True,
                                 missing=False, pads=False))
    bad = draw(st.sampled_from([0] * 9 + [1]))
    if bad:
        case['bad'] = draw(bad_filter(case))
    else:
        case['filters'] = draw(st.lists(
            tasks.filter_specs(case, ('by', 'generic', 'generic', 'ext', 'ext', 'ext', 'ext')),
            min_size=1, max_size=2 + draw(st.integers(0, 1))))
    return case


@st.composite
def bad_filter(draw, case):
    """A filter whose meaning is undefined: must be refused"""
    role = tasks.roles(case)
    other = sorted(c for c in role if role[c] != 'by')
    kind = draw(st.sampled_from(['mixed', 'mixed', 'ext', 'ext', 'stmt']))
    if kind == 'mixed':
        a, b = draw(st.sampled_from(other)), draw(st.sampled_from(other))
        e = draw(st.sampled_from(tasks.valid_exts(role[b])))
        return '[u == v for u, v in zip(%s, %s%s)]' % (a, b, e)
    if kind == 'ext':
        wrong = []
        for c in sorted(role):
            ok = {'on': ['_AB'], 'across': ['_AX'],
                  'by': ['_1', '_2', '_AX', '_AB'],
                  'other': ['_1', '_2', '_AX', '_AB']}[role[c]]
            wrong += [c + e for e in ok]
        w = draw(st.sampled_from(wrong))
        return draw(st.sampled_from([w, '[u is None for u in %s]' % w]))
    return 'z = [True for u in %s_A]' % other[0]


def strategy(tier):
    return cases()


def fixed_cases(tier):
    # filters that leave item indexes with gaps in a large block
    c = tasks.big_case(2, 2, across=1)
    c['pad'] = {'n': 300, 'where': 'front', 'mode': 'same', 'by': {}}
    c['filters'] = [{'op': 'in', 'vars': ['phone'], 'vals': [[0], [1]],
                     'form': 'inline'}]
    yield c
    # the same with indexes beyond 16 bits, and a relation between items
    for v in (['ctx_A', 'ctx_X'], ['ctx_B', 'ctx_X']):
        c = tasks.huge_index_case()
        c['cols'].append(['ctx', 's', 2])
        c['rows'] = [r + [k % 2] for k, r in enumerate(c['rows'])]
        c['filters'] = [{'op': 'ne', 'vars': v, 'form': 'inline'}]
        yield c
    # more than 16 bits of triplets kept in an on/across/by block
    c = tasks.big_case(2, 42, across=1)
    c['cols'].append(['ctx', 's', 14])
    c['rows'] = [r + [k % 14] for k, r in enumerate(c['rows']) if r != [1, 1]]
    c['filters'] = [{'op': 'ne', 'vars': ['ctx_B', 'ctx_X'],
                     'form': 'inline'}]
    yield c
    # filters on the same variables: each sees the labels of the items
    for v in ('ctx', 'ctx_A', 'ctx_B', 'ctx_X'):
        c = tasks.big_case(2, 2, across=1, n_ac=2, by=3)
        c['by'] = []
        c['filters'] = [{'op': 'in', 'vars': [v], 'form': form,
                         'vals': [[k] for k in range(3) if k != drop]}
                        for form, drop in (('mut', -1), ('inline', 0),
                                           ('mut', 1))]
        yield c
    c = tasks.big_case(2, 4, across=1, n_ac=3, by=2)
    c['filters'] = [
        {'op': 'in', 'vars': ['ctx', 'talker_X'], 'vals': [[0, 0], [1, 1]],
         'form': 'py'},
        {'op': 'in', 'vars': ['phone_B'], 'vals': [[1]], 'form': 'inline'}]
    yield c


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    if case.get('bad'):
        core.expect_raises(
            lambda: tasks.make_task(ref, filters=[case['bad']]), ValueError,
            'filter %r' % case['bad'])
        info.cls('refused filter')
        return
    fs = case['filters']
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    expected = ref.triplets(*tasks.filtered(ref, fs))
    total = sum(len(v) for v in expected.values())
    unfiltered = sum(len(v) for v in ref.triplets().values())
    with core.quiet():
        task = tasks.make_task(ref, filters=texts,
                               style=case.get('style', 0))
        task.generate_triplets(output='out.abx')
    for f in fs:
        info.cls('stage ' + tasks.filter_stage(f, case))
        info.cls('form ' + f.get('form', 'column name'))
        for v in f['vars']:
            c, e = tasks.split_ext(v)
            info.cls('%s%s' % (tasks.roles(case)[c], e))
    info.cls('several filters', len(fs) > 1)
    if total == 0:
        core.require(not os.path.exists('out.abx'),
                     'no triplet passes the filters %r, yet a task file was '
                     'written', texts)
        info.cls('no triplets')
        return
    core.require(os.path.exists('out.abx'), 'no task file although %d '
                 'triplets pass the filters %r', total, texts)
    tasks.compare_triplets(tasks.decode('out.abx', ref), expected,
                           'filters %r' % texts)
    info.count('triplets kept', total)
    info.count('triplets removed', unfiltered - total)
    info.nontrivial = 0 < total < unfiltered
