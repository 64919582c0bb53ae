"""C22: same inputs and seed, same results"""
from hypothesis import strategies as st

from .. import core, feats, h5dump, repro, tasks

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 900, 'wall': 50},
          'thorough': {'cases': 16000, 'wall': 1500}}
RULE = ('generated task (filters, regressors, threshold and seed) and '
        'features, computed from end to end three times: in this process, '
        'and in two others with different hash seeds, and with generated '
        'differences that must not matter (earlier use of the random '
        'generator, verbose mode, absolute paths, several processes, command '
        'line or functions, other directories for temporary files, the same '
        'task object used before); all the results and statistics are '
        'compared. Non-trivial: at least one triplet, and a threshold that '
        'draws a sample or at least two regressor values.')
ASSUMPTIONS = []

SERVERS = []


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=5, max_rows=12, max_across=2,
                                 aux=True, pads=True, missing=True,
                                 pad_sizes=(5, 12)))
    case['feats'] = draw(feats.feature_specs())
    case['feats'].update(split=1)
    case['threshold'] = draw(st.sampled_from([None, 1, 1, 2, 3, 5]))
    case['rseed'] = draw(st.integers(0, 1000))
    role = tasks.roles(case)
    names = sorted(c + e for c in role for e in ('_A', '_B', '_X')
                   if role[c] in ('other', 'by'))
    if names and draw(st.booleans()):
        case['regressors'] = draw(st.lists(
            st.sampled_from(names), min_size=1, max_size=3, unique=True))
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(case))
                           for _ in range(draw(st.integers(1, 2)))]
    case['styles'] = [{
        'verbose': draw(st.booleans()), 'absolute': draw(st.booleans()),
        'noise': draw(st.integers(0, 1000)),
        'cli': draw(st.sampled_from([0, 0, 1])),
        'tmp': draw(st.sampled_from([0, 1])),
        'repeat': draw(st.sampled_from([1, 1, 2, 3])),
        'n_cpu': draw(st.sampled_from([1] * 7 + [2]))} for _ in range(2)]
    return case


def strategy(tier):
    return cases()


def run_case(case, info):
    if not SERVERS:
        SERVERS.extend(repro.Server(s) for s in (1, 4242))
    ref = tasks.Ref(case)
    ref.write()
    feats.write(feats.make(ref, case['feats']), case['feats'])
    plain = {'verbose': False, 'absolute': False, 'noise': 5, 'repeat': 1,
             'n_cpu': 1, 'cli': 0, 'tmp': 0}
    first = repro.compute(case, plain, 'r0')
    for k, style in enumerate(case['styles']):
        try:
            other = SERVERS[k].ask(case, style, 'r%d' % (k + 1))
        except (OSError, RuntimeError) as e:
            del SERVERS[:]
            raise core.HarnessError('no answer from the other process: %s'
                                    % e)
        core.require('error' not in other, 'fails in another process (%s): '
                     '%s', style, other.get('error'))
        core.require(set(other) == set(first), 'results in this process: '
                     '%s, in another: %s', sorted(first), sorted(other))
        for part in first:
            d = h5dump.difference(first[part], other[part])
            core.require(not d, 'with the same inputs and seed, another '
                         'run (%s) gives another %s: %s', style, part,
                         [(x, first[part].get(x), other[part].get(x))
                          for x in d[:3]])
    if 'abx' not in first:
        info.cls('no triplets')
        return
    info.cls('threshold', bool(case['threshold']))
    info.cls('verbose', any(s['verbose'] for s in case['styles']))
    info.cls('command line', any(s.get('cli') for s in case['styles']))
    info.cls('own temporary directory', any(s.get('tmp')
                                            for s in case['styles']))
    info.cls('repeat', any(s['repeat'] > 1 for s in case['styles']))
    info.cls('several processes', any(
        s['n_cpu'] > 1 for s in case['styles']))
    n = int(first['stats'].get('nb_triplets', 0))
    info.count('triplets', n)
    info.nontrivial = bool(case['threshold']) or len(first['csv']) > 3
