"""C19: item files: malformed ones are refused, layout does not matter"""
import os

import numpy as np
from hypothesis import strategies as st

from .. import core, tasks
from ..core import require, expect_raises

BUDGET = {'quick': {'cases': 5000, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1200}}
RULE = ('a generated valid task to which one thing is done. Either a fault '
        '(absent or misspelt columns, misnamed or misplaced location '
        'columns, wrong number of # columns, underscores, more fields than '
        'names, wrong auxiliary file, label described twice, impossible variable in a filter or regressor, not a string, '
        'missing item file, existing output): it must be refused with the '
        'documented error, before any output. Or another layout of the same '
        'data (separators, blanks around lines, empty lines, no final end '
        'of line, CRLF, order of label columns, unused columns, and the '
        'same of auxiliary files, with labels not in use): the '
        'triplets must be the same. Rows without all their labels must be '
        'listed apart and take no part. Non-trivial: a fault, or a layout '
        'that differs, on a task with triplets.')
ASSUMPTIONS = ['labels contain no white space']

FAULTS = ['on', 'across', 'by', 'file', 'onset', 'offset', 'swap',
          'nohash', 'hashes', 'underscore', 'sharp', 'auxname', 'onlist', 'noitem',
          'ext12', 'extAX', 'extAB', 'ambiguous', 'syntax', 'statement',
          'unknown', 'regplain', 'output', 'regext', 'fields', 'auxdup']
LAYOUTS = ['sep', 'spaces', 'trail', 'blank', 'nonl', 'crlf', 'cols', 'extra',
           'ends', 'keys']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['fault'] * 3 + ['layout'] * 3 + ['drop']))
    case = draw(tasks.task_cases(min_rows=3, max_rows=10, max_across=2,
                                 aux=True, missing=kind == 'drop',
                                 pads=False, kinds='sssswwifb' +
                                 ('mm' if kind == 'drop' else '')))
    case['what'] = kind
    if kind == 'fault':
        case['fault'] = FAULTS[draw(st.integers(0, 10 ** 6)) % len(FAULTS)]
        case['pick'] = draw(st.integers(0, 100))
    elif kind == 'layout':
        case['layout'] = draw(st.lists(st.sampled_from(LAYOUTS), min_size=1,
                                       max_size=3))
        case['pick'] = draw(st.integers(0, 10 ** 6))
    else:
        case['pick'] = draw(st.integers(0, 5))
    return case


def strategy(tier):
    return cases()


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    if case['what'] == 'fault':
        return fault(case, ref, info)
    if case['what'] == 'drop':
        return drop(case, ref, info)
    layout(case, ref, info)


def lines_of(path='data.item'):
    with open(path, encoding='utf8') as f:
        return f.read().split('\n')[:-1]


def put(lines, path='data.item', end='\n', last=True):
    with open(path, 'w', encoding='utf8', newline='') as f:
        f.write(end.join(lines) + (end if last else ''))


def fault(case, ref, info):
    import ABXpy.task
    f, k = case['fault'], case['pick']
    sep = case['sep']
    on, across, by = ref.on, list(ref.across), list(ref.by)
    filters, regs, path = None, None, 'data.item'
    types = (AssertionError,)
    roles = tasks.roles(case)
    bad = ['nosuch', on + '_A', on.upper() + 'Z', 'file', 'onset', '#file',
           on + '_1', 'offset'][k % 8]
    head = lines_of()[0].split(sep)

    def new_head(h):
        put([sep.join(h)] + lines_of()[1:])
    if f == 'on':
        on = bad
    elif f == 'across':
        across.insert(k % (len(across) + 1), bad)
    elif f == 'by':
        by.insert(k % (len(by) + 1), bad)
    elif f in ('file', 'onset', 'offset'):
        i = ['file', 'onset', 'offset'].index(f)
        head[i] = [['file', '#item', '#File', 'x'], ['start', 'Onset', 'on'],
                   ['end', 'offsets', 'duration']][i][k % 3]
        new_head(head)
    elif f == 'swap':
        head[1], head[2] = head[2], head[1]
        new_head(head)
    elif f == 'nohash':
        head[3] = head[3][1:]
        new_head(head)
    elif f == 'hashes':
        if len(head) < 5:
            head.append('more')
            put([sep.join(head)] + [x + sep + 'm' for x in lines_of()[1:]])
        j = 4 + k % (len(head) - 4)
        head[j] = '#' + head[j]
        new_head(head)
    elif f == 'underscore':
        put([lines_of()[0] + sep + ['my_col', 'a_', '_b', 'x_A'][k % 4]] +
            [x + sep + 'm' for x in lines_of()[1:]])
    elif f == 'sharp':
        put([lines_of()[0] + sep + ['a#b', 'c#', 'd#2#e'][k % 3]] +
            [x + sep + 'm' for x in lines_of()[1:]])
    elif f == 'auxname':
        c = ref.cols[k % len(ref.cols)]
        kids = [ch[0] for a in ref.aux for ch in a['children']]
        c = (kids + ref.cols)[k % len(kids + ref.cols)]
        with open('data.' + c, 'w', encoding='utf8') as h:
            h.write('other feat\nA 1\nB 2\n')
    elif f == 'fields':
        # every row has more fields than there are names
        path_ = (['data.' + a['col'] for a in ref.aux] +
                 ['data.item'])[k % (len(ref.aux) + 1)]
        types = (AssertionError, ValueError)
        old = lines_of(path_)
        if len(old) < 2:
            return
        more = sep.join(['m'] * (1 + k % 3))
        if k % 2:
            put([old[0]] + [x + sep + more for x in old[1:]], path_)
        else:
            put([old[0]] + [more + sep + x for x in old[1:]], path_)
    elif f == 'auxdup':
        # a label described twice
        types = (Exception,)
        pool = [a for a in ref.aux if a['map']]
        used = {c for i in ref.kept for c in tasks.Counter(
            (a['col'], tasks.norm(ref.rows[i][a['col']])) for a in pool)}
        pool = [(a, j) for a in pool for j, (i, _) in enumerate(a['map'])
                if (a['col'], tasks.norm(tasks.key_label(
                    ref.kind[a['col']], a['col'], i))) in used]
        if not pool:
            return
        a, j = pool[k % len(pool)]
        old = lines_of('data.' + a['col'])
        row = old[1 + j]
        if k % 3 == 0 and a['children'][-1][1] != 'i':
            row = sep.join(row.split(sep)[:-1] + ['zz'])
        old.insert(1 + k % len(old), row)
        put(old, 'data.' + a['col'])
        if by and by[0] in ref.cols and k % 2:
            gone = ref.rows[ref.kept[-1]][by[0]]
            filters = ['[v != %s for v in %s]' % (ascii(gone), by[0])]
    elif f == 'onlist':
        on = [[on], None, 3, (on,)][k % 4]
    elif f == 'noitem':
        path = ['nope.item', 'data', 'data.ite', 'd/data.item'][k % 4]
    elif f in ('ext12', 'extAX', 'extAB', 'ambiguous'):
        types = (ValueError,)
        pool = {'ext12': lambda c: roles[c] in ('other', 'by'),
                'extAX': lambda c: roles[c] != 'on',
                'extAB': lambda c: roles[c] != 'across',
                'ambiguous': lambda c: roles[c] != 'by'}[f]
        pool = sorted(c for c in roles if pool(c))
        if not pool:
            return
        c = pool[k % len(pool)]
        if f == 'ambiguous':
            filters = ['[u == v for u, v in zip(%s, %s_%s)]' % (
                c, c, 'ABX'[k % 3])]
        else:
            e = {'ext12': ['_1', '_2'][k % 2], 'extAX': '_AX',
                 'extAB': '_AB'}[f]
            filters = ['[bool(v) for v in %s%s]' % (c, e)]
    elif f == 'regext':
        types = (ValueError,)
        pool = sorted(c for c in roles if roles[c] in ('other', 'by'))
        if not pool:
            return
        regs = [pool[k % len(pool)] + ['_1', '_2', '_AX', '_AB'][k % 4]]
    elif f == 'regplain':
        types = (ValueError,)
        pool = sorted(c for c in roles if roles[c] != 'by')
        regs = [pool[k % len(pool)]]
    elif f == 'syntax':
        types = (SyntaxError,)
        filters = ['[v for v in %s_A' % on]
    elif f == 'statement':
        types = (ValueError,)
        filters = ['v = [True for u in %s_A]' % on]
    elif f == 'unknown':
        if not ref.kept:
            return          # no complete row: nothing to evaluate it on
        types = (NameError,)
        filters = ['[v for v in nosuch_A]']
    info.cls('fault ' + f)
    if f == 'output':
        with core.quiet():
            task = tasks.make_task(ref)
        if not task.stats['nb_triplets']:
            return
        name = [None, 'mine.abx', 'mine.abx'][k % 3]
        actual = name or 'data.abx'
        with open(actual, 'wb') as h:
            h.write([b'precious', b''][k % 2])
        before = tree()
        expect_raises(lambda: task.generate_triplets(output=name),
                      (ValueError,), 'writing over an existing file')
        require(tree() == before, 'files were changed')
        info.nontrivial = True
        return
    before = tree()

    def go():
        kw = {}
        if filters is not None:
            kw['filters'] = filters
        if regs is not None:
            kw['regressors'] = regs
        t = ABXpy.task.Task(path, on, across, by, **kw)
        t.generate_triplets(output='out.abx')
    expect_raises(go, types, 'fault %s (%s)' % (f, dict(
        on=on, across=across, by=by, filters=filters, regressors=regs,
        path=path)))
    after = tree()
    after.pop('data-removed.item', None)
    require(after == before, 'a refused task changed files: %s',
            sorted(set(after) ^ set(before)) or 'contents')
    info.nontrivial = True


def tree():
    out = {}
    for d, _, files in os.walk('.'):
        for f in files:
            p = os.path.relpath(os.path.join(d, f), '.')
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def triplets_of(ref, style=0, name='out.abx', path='data.item'):
    with core.quiet():
        task = tasks.make_task(ref, style=style, path=path)
        task.generate_triplets(output=name)
    return os.path.exists(name)


def layout(case, ref, info):
    expected = ref.triplets()
    total = sum(len(v) for v in expected.values())
    rng = np.random.RandomState(case['pick'])
    rows = [r.split(case['sep']) for r in lines_of()]
    end, last = '\n', True
    kinds = case['layout']
    if 'cols' in kinds and len(rows[0]) > 5:
        # the first label column keeps the mark
        perm = rng.permutation(len(rows[0]) - 3)
        rows = [r[:3] + [r[3 + p] for p in perm] for r in rows]
        h = [c.lstrip('#') for c in rows[0][3:]]
        rows[0] = rows[0][:3] + ['#' + h[0]] + h[1:]
    if 'extra' in kinds:
        rows = [r + ['unused' if i == 0 else 'u%d' % rng.randint(3)]
                for i, r in enumerate(rows)]
    seps = {'sep': ['\t', ' '], 'spaces': [' ', '  ', '\t', ' \t ', '   ']}
    pool = [case['sep']]
    for k in ('sep', 'spaces'):
        if k in kinds:
            pool = seps[k]
    lines = []
    for i, r in enumerate(rows):
        s = r[0]
        for c in r[1:]:
            s += pool[rng.randint(len(pool))] + c
        lines.append(s)
    if 'ends' in kinds:
        ends = ['', ' ', '\t', '  '][:4 if rng.randint(2) else 2]
        mode = rng.randint(3)       # after, before, both
        lines = [(ends[rng.randint(len(ends))] if mode else '') + x +
                 (ends[rng.randint(len(ends))] if mode != 1 else '')
                 for x in lines]
    if 'blank' in kinds:
        for _ in range(rng.randint(1, 4)):
            lines.insert(rng.randint(1, len(lines) + 1), '')
    if 'crlf' in kinds:
        end = '\r\n'
    if 'nonl' in kinds:
        last = False
    put(lines, end=end, last=last)
    if 'keys' in kinds:
        # the auxiliary files too: separators, lines, labels not in use
        for a in ref.aux:
            name = 'data.' + a['col']
            old = [r.split(case['sep']) for r in lines_of(name)]
            kind = ref.kind[a['col']]
            if rng.randint(2) and kind in 'swm':
                old.append([tasks.label(kind, a['col'], 18)] + [
                    str(tasks.label(c[1], c[0], 0)) for c in a['children']])
            body = [old[i] for i in 1 + rng.permutation(len(old) - 1)]
            new = []
            for r in [old[0]] + body:
                s = r[0]
                for c in r[1:]:
                    s += pool[rng.randint(len(pool))] + c
                new.append(s)
            if 'blank' in kinds:
                new.insert(rng.randint(1, len(new) + 1), '')
            if 'ends' in kinds:
                new = [x + ['', ' ', '\t'][rng.randint(3)] for x in new]
            put(new, name, end=end, last=last)
    if 'trail' in kinds:
        with open('data.item', 'a', encoding='utf8') as f:
            f.write('\n' * rng.randint(1, 4) + ' \n' * rng.randint(0, 2))
    there = triplets_of(ref, case.get('style', 0))
    require(there == (total > 0), '%d triplets expected, task file %s',
            total, 'written' if there else 'not written')
    if total:
        tasks.compare_triplets(tasks.decode('out.abx', ref), expected,
                               'layout %s' % kinds)
    require(len(ref.kept) < len(ref.rows) or
            not os.path.exists('data-removed.item'),
            'rows were set aside though none lacks a label')
    for k in kinds:
        info.cls('layout ' + k)
    info.nontrivial = total > 0


def drop(case, ref, info):
    stale = len(ref.kept) < len(ref.rows) and case.get('pick', 0) % 3 == 0
    if stale:                   # the list left by an earlier item file
        with open('data-removed.item', 'w', encoding='utf8') as f:
            f.write(',old\n' + '3,x\n' * 500)
    info.cls('list of an earlier item file', stale)
    there = triplets_of(ref)
    expected = ref.triplets()
    total = sum(len(v) for v in expected.values())
    require(there == (total > 0), '%d triplets expected, task file %s',
            total, 'written' if there else 'not written')
    if total:
        tasks.compare_triplets(tasks.decode('out.abx', ref), expected)
    gone = [i for i in range(len(ref.rows)) if i not in set(ref.kept)]
    info.cls('rows dropped', bool(gone))
    if not gone:
        require(not os.path.exists('data-removed.item'),
                'rows were set aside though none lacks a label')
        return
    require(os.path.exists('data-removed.item'),
            'rows without all their labels are not listed')
    import csv
    with open('data-removed.item', encoding='utf8', newline='') as f:
        table = list(csv.reader(f))
    require(len(table) == 1 + len(gone), '%d rows removed, %d listed',
            len(gone), len(table) - 1)
    require(set(table[0][1:]) == set(ref.all_cols),
            'removed rows are listed with columns %s', table[0])
    for line, i in zip(table[1:], gone):
        require(int(line[0]) == i, 'row %s is listed as removed instead of '
                'row %d', line[0], i)
        for c, v in zip(table[0][1:], line[1:]):
            want = ref.rows[i][c]
            require(v == '' if want is None else
                    tasks.norm(v) == tasks.norm(want),
                    'removed row %d is listed with %s = %r instead of %r',
                    i, c, v, want)
    info.nontrivial = total > 0
