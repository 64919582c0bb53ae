"""C06: threshold sampling"""
import collections
import math

from hypothesis import strategies as st

from .. import core, tasks

BUDGET = {'quick': {'cases': 2800, 'wall': 50},
          'thorough': {'cases': 40000, 'wall': 1200}}
RULE = ('generated tasks with a threshold (1-200) and extra regressors; '
        'stored triplets are compared with the brute-force enumeration: no '
        'repetition, nothing foreign, and the exact number per group of '
        'triplets that share on, across, by and regressors. Enumerated '
        'cases repeat one sampling over many seeds and compare how often '
        'each triplet is retained with the uniform expectation (bounds 7 '
        'standard deviations wide, and a chi2 test over all groups). Non-trivial: some group is larger than '
        'the threshold.')
ASSUMPTIONS = ['without across column, each A item has its own groups']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=5, max_rows=16, max_across=2,
                                 pads=True, kinds='sssswif',
                                 pad_sizes=(5, 20, 40)))
    role = tasks.roles(case)
    names = [c + e for c in sorted(role) for e in ('_A', '_B', '_X')
             if role[c] in ('other', 'by')]
    case['regressors'] = draw(st.lists(st.sampled_from(names), max_size=2,
                                       unique=True)) if names else []
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(case, ('ext',)))]
    case['threshold'] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 20, 200]))
    case['seed'] = draw(st.integers(0, 2 ** 31))
    return case


def strategy(tier):
    return cases()


def fixed_cases(tier):
    k = 1 if tier == 'quick' else 4
    for n_on, n_per, across, thr in (
            (4, 3, 1, 5), (3, 4, 0, 1), (3, 3, 0, 3), (3, 5, 1, 2),
            (3, 3, 1, 3), (3, 4, 1, 20)):
        c = tasks.big_case(n_on, n_per, across=across)
        c.update(threshold=thr, regressors=[], seeds=60 * k)
        yield c
    # a group of more than 256 and of more than 65536 triplets
    c = tasks.big_case(2, 12, across=1)
    c.update(threshold=300, regressors=[], seed=3)
    yield c
    c = tasks.big_case(2, 42, across=1)
    c.update(threshold=1000, regressors=[], seed=3)
    yield c
    c = tasks.big_case(2, 35, across=1)
    c.update(threshold=2000, regressors=[], seed=4)
    yield c


def generate(case, ref, texts, seed):
    with core.quiet():
        task = tasks.make_task(ref, filters=texts or None,
                               regressors=list(case['regressors']))
        total = task.stats['nb_triplets']
        out = 'out-%d.abx' % seed
        task.generate_triplets(output=out, threshold=case['threshold'],
                               seed=seed)
    return tasks.decode(out, ref, True) if total else []


def groups(ref, ts, regressors):
    """Triplets by what they share"""
    g = collections.defaultdict(set)
    names = ref.default_regressors() + list(regressors)
    for t in ts:
        cell = tuple(ref.rows[t[0]][c] for c in ref.across) if ref.across \
            else t[0]
        g[cell, tuple(ref.regressor(n, *t) for n in names)].add(t)
    return g


def z_chi2(total, free):
    """A sum of squares of that law, brought back to a normal one"""
    return ((total / free) ** (1 / 3.) - 1 + 2 / (9. * free)) / \
        math.sqrt(2 / (9. * free))


def spread(members, kept, parts=16):
    """The sample of a large group comes from all over it"""
    for order in (None, lambda t: t[::-1], lambda t: (t[1], t[2], t[0])):
        ts = sorted(members, key=order)
        m, k = len(ts), len(kept & members)
        total = 0
        for p in range(parts):
            some = ts[m * p // parts:m * (p + 1) // parts]
            q = len(some) / float(m)
            n = sum(t in kept for t in some)
            total += (n - k * q) ** 2 / (k * q * (1 - k / float(m)))
        core.require(z_chi2(total, parts - 1) < 8, 'the sample of %d of %d '
                     'triplets is not uniform: chi2 %.0f over %d parts', k,
                     m, total, parts)


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    thr = case['threshold']
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    expected = ref.triplets(*tasks.filtered(ref, fs))
    a_regs = any(tasks.split_ext(r)[1] == '_A' and
                 tasks.roles(case)[tasks.split_ext(r)[0]] == 'other'
                 for r in case['regressors'])
    seeds = list(range(case['seeds'])) if 'seeds' in case else [case['seed']]
    freq = collections.Counter()
    for seed in seeds:
        got = {b.key: b for b in generate(case, ref, texts, seed)}
        want = {k for k, v in expected.items() if v}
        core.require(set(got) == want, 'by blocks %r instead of %r',
                     sorted(got), sorted(want))
        for key, b in got.items():
            s = set(b.triplets)
            core.require(len(s) == len(b.triplets),
                         'by %r: a triplet is retained twice', key)
            core.require(s <= expected[key], 'by %r: retained triplets that '
                         'are not in the task: %r', key,
                         sorted(s - expected[key])[:3])
            gg = groups(ref, s, case['regressors'])
            freq.update(s)
            for g, members in groups(ref, expected[key],
                                     case['regressors']).items():
                n = len(gg.get(g, ()))
                core.require(n <= thr, 'group %r keeps %d triplets, the '
                             'threshold is %d', g, n, thr)
                if not a_regs:
                    core.require(
                        n == min(thr, len(members)), 'group %r of %d '
                        'triplets keeps %d for a threshold of %d', g,
                        len(members), n, thr)
                if len(members) > thr >= 500 and not a_regs:
                    spread(members, s)
                    info.cls('spread over a large group')
                if len(members) > thr:
                    info.nontrivial = True
                    info.cls('sampled group')
                else:
                    info.cls('group kept whole')
                info.count('groups')
    if len(seeds) > 1:
        info.cls('uniformity')
        total = free = 0
        for key, ts in expected.items():
            for g, members in groups(ref, ts, case['regressors']).items():
                p = min(1., float(thr) / len(members))
                n, m = len(seeds), len(members)
                if m > thr:
                    total += sum((freq[t] - n * p) ** 2 for t in members) / (
                        n * p * (1 - p)) * (m - 1) / m
                    free += m - 1
                sd = math.sqrt(n * p * (1 - p))
                for t in members:
                    core.require(
                        abs(freq[t] - n * p) <= 7 * sd + 1, 'triplet %r is '
                        'retained %d times over %d seeds instead of about '
                        '%.0f', t, freq[t], n, n * p)
        if free:
            core.require(z_chi2(total, free) < 8, 'triplets are not equally likely: chi2 %.0f '
                         'with %d degrees of freedom', total, free)
    info.cls('A regressors', a_regs)
    info.cls('filters', bool(fs))
    info.cls('across=%d' % len(ref.across))
