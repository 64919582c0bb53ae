"""C03: the statistics of a task describe the task"""
import operator
import re

from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 4200, 'wall': 50},
          'thorough': {'cases': 50000, 'wall': 1200}}
RULE = ('generated item files with 0-2 generated filters; the published '
        'statistics are compared with counts over a brute-force enumeration '
        '(triplets, items, by levels, on/across/by blocks, sizes of blocks; '
        'A-B and A-X pairs and levels where they are defined exactly), and '
        'the printed summary with the same counts. Non-trivial: at least '
        'two triplets.')
ASSUMPTIONS = ['A-B pairs, A-X pairs and levels are only defined without '
               'filters on A, B or X, except those that keep or remove whole '
               'on/across/by blocks; levels only with an across column']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=3, max_rows=14, max_across=3,
                                 aux=True, missing=True, pads=True,
                                 kinds='sssswwif'))
    if draw(st.sampled_from([0, 1, 1])):
        case['filters'] = draw(st.lists(
            tasks.filter_specs(case, ('by', 'generic', 'ext', 'ext')),
            min_size=1, max_size=2))
    case['generate'] = draw(st.sampled_from([0, 0, 1, 2]))
    return case


def strategy(tier):
    return cases()


def key_of(by, ref):
    if not ref.by:
        return ()
    if not isinstance(by, tuple):
        by = (by,)
    return tuple(tasks.norm(v) for v in by)


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    keep, by_ok, pred = tasks.filtered(ref, fs)
    expected = ref.triplets(keep, by_ok, pred)
    blocks = ref.blocks(keep, by_ok)
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None,
                               style=case.get('style', 0))
    total = sum(len(v) for v in expected.values())
    # filters that keep or remove whole on/across/by blocks: then, all the
    # statistics are exact
    whole = None if pred is None or all(whole_blocks(f, case) for f in fs
                                        if tasks.filter_stage(f, case) ==
                                        'ext') else pred
    cells = (lambda i: pred is None or pred(i, i, i))

    def check_all():
        check_stats(task, ref, expected, blocks, whole, cells, total)
    check_all()

    # the estimate never misses a triplet, and is exact without filters
    # on A, B or X
    with core.quiet():
        task.compute_statistics(approximate=True)
    approx = task.stats['nb_triplets']
    if whole is None:
        core.require(approx == total, 'approximate number of triplets %r '
                     'instead of %r without any filter on A, B or X',
                     approx, total)
    elif len(ref.across) <= 1:
        core.require(approx >= total, 'approximate number of triplets %r '
                     'under the actual number %r', approx, total)
    with core.quiet():
        task.compute_statistics()
    check_all()

    # writing the task changes nothing to its statistics
    if case.get('generate') and total:
        for k in range(case['generate']):
            with core.quiet():
                task.generate_triplets(output='out%d.abx' % k)
            stored = sum(b.range[1] - b.range[0]
                         for b in tasks.decode('out%d.abx' % k, ref))
            core.require(stored == total, '%d triplets stored, statistics '
                         'say %d', stored, total)
            check_all()
        with core.quiet():
            task.compute_statistics()
        check_all()
        info.cls('generated')
        info.cls('generated, empty by block',
                 any(not v for v in expected.values()))

    if whole is None:
        with core.quiet():
            task.print_stats('stats.txt')
        printed(open('stats.txt', encoding='utf8').read(), task, ref,
                expected, blocks)
        if ref.across:
            levels = 0
            for key, ts in expected.items():
                levels += len({
                    (ref.rows[a][ref.on], ref.rows[b][ref.on]) +
                    tuple(ref.rows[i][c] for i in (a, x) for c in ref.across)
                    for a, b, x in ts})
            core.require(task.stats['nb_levels'] == levels,
                         'nb_levels %r instead of %r',
                         task.stats['nb_levels'], levels)
            info.cls('levels')
            info.cls('levels, filtered blocks', pred is not None)

    info.cls('across=%d' % len(ref.across))
    info.cls('filters', bool(fs))
    info.cls('filters on A, B, X', pred is not None)
    info.cls('no triplets', total == 0)
    info.cls('items removed', keep is not None)
    info.count('triplets', total)
    info.nontrivial = total > 1


def whole_blocks(f, case):
    role = tasks.roles(case)
    return all(role[c] == 'by' or e in ('_1', '_AX', '_AB') or
               (role[c] == 'on' and e in ('_A', '_X'))
               for c, e in map(tasks.split_ext, f['vars']))


def check_stats(task, ref, expected, blocks, whole, cells, total):
    s = task.stats
    core.require(s['nb_triplets'] == total,
                 'nb_triplets %r instead of %r', s['nb_triplets'], total)
    core.require(s['nb_by_levels'] == len(blocks),
                 'nb_by_levels %r instead of %r', s['nb_by_levels'],
                 len(blocks))

    def cell(i):
        ac = tuple(tasks.norm(ref.rows[i][c]) for c in ref.across) if \
            ref.across else (i,)
        return (tasks.norm(ref.rows[i][ref.on]),) + ac

    n_blocks = sum(len({cell(i) for i in items})
                   for items in blocks.values())
    core.require(s['nb_blocks'] == n_blocks,
                 'nb_blocks %r instead of %r', s['nb_blocks'], n_blocks)
    got = {key_of(by, ref): st_ for by, st_ in task.by_stats.items()}
    core.require(set(got) == set(blocks), 'by levels %r instead of %r',
                 sorted(got), sorted(blocks))
    for key, items in blocks.items():
        b = got[key]
        want = {
            'nb_items': len(items),
            'nb_triplets': len(expected[key]),
            'nb_on_levels': len({cell(i)[0] for i in items}),
            'nb_across_levels': len({cell(i)[1:] for i in items}),
            'nb_on_across_levels': len({cell(i) for i in items})}
        if whole is None:
            on = {i: ref.rows[i][ref.on] for i in items}
            ac = {i: cell(i)[1:] for i in items}
            if len(items) < 60:
                if ref.across:
                    want['nb_across_pairs'] = sum(
                        on[i] != on[j] and ac[i] == ac[j]
                        for i in items for j in items if cells(i))
                else:
                    want['nb_across_pairs'] = sum(
                        on[i] != on[j]
                        for i in items for j in items if cells(i))
                want['nb_on_pairs'] = sum(
                    on[i] == on[j] and all(map(operator.ne, ac[i], ac[j]))
                    for i in items for j in items if cells(i))
        for name, v in want.items():
            core.require(b[name] == v, 'by level %r: %s is %r instead of %r',
                         key, name, b[name], v)
        sizes = {}
        for k, v in b['block_sizes'].items():
            k = tuple(tasks.norm(e) for e in k)
            k = k[:1 + len(ref.across)]
            sizes[k] = sizes.get(k, 0) + v
        ref_sizes = {cell(i)[:1 + len(ref.across)]: 0 for i in items}
        for a, _, _ in expected[key]:
            ref_sizes[cell(a)[:1 + len(ref.across)]] += 1
        core.require(sizes == ref_sizes, 'by level %r: block sizes %r '
                     'instead of %r', key, sizes, ref_sizes)


def printed(text, task, ref, expected, blocks):
    m = re.search(r"'nb_triplets': (\d+)", text)
    total = sum(len(v) for v in expected.values())
    core.require(m and int(m.group(1)) == total,
                 'printed total of triplets: %r instead of %d',
                 m and m.group(1), total)
    parts = text.split('### by level: ')[1:]
    core.require(len(parts) == len(blocks), '%d by levels printed instead '
                 'of %d', len(parts), len(blocks))
    for by, stats in task.by_stats.items():
        # the numbers themselves were checked
        part = [p for p in parts if p.startswith('%s ###\n' % (by,))]
        core.require(len(part) == 1, 'by level %r is printed %d times', by,
                     len(part))
        for name in ('nb_triplets', 'nb_across_pairs', 'nb_on_pairs',
                     'nb_on_levels', 'nb_across_levels',
                     'nb_on_across_levels', 'nb_levels'):
            m = re.search(r'^%s: (\d+)$' % name, part[0], re.M)
            core.require(m and int(m.group(1)) == stats[name],
                         'by level %r: %s is printed as %r instead of %r',
                         by, name, m and m.group(1), stats[name])
    counts = sorted(int(re.search(r'^nb_triplets: (\d+)$', p, re.M).group(1))
                    for p in parts)
    core.require(counts == sorted(len(expected[k]) for k in blocks),
                 'printed number of triplets per by level: %r', counts)
