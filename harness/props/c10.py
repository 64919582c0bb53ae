"""C10: the whole chain, from item file and features to results"""
import json
import hashlib
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import core, feats, tasks
from . import c09

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 2600, 'wall': 50},
          'thorough': {'cases': 20000, 'wall': 1500}}
RULE = ('generated item file and features go through task, distance, score '
        'and analyze, by the python API, the command line entry points or '
        'bin/ABXrun.py, '
        'with the default, dtw_kl, levenshtein and a user-defined distance; '
        'the results table is compared with brute force from the item file '
        'and features to the mean score of each group. Triplets whose two '
        'distances are too close for floating point to tell may take any '
        'score. Non-trivial: at least two triplets whose score is certain, '
        'not all equal.')
ASSUMPTIONS = ['features are double precision']


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=4, max_rows=10, max_across=2,
                                 aux=True, missing=True, pads=False,
                                 kinds='ssssswif'))
    case['win'] = draw(feats.windows())
    case['scale'] = draw(st.sampled_from(feats.SCALES))
    case['dist'] = draw(st.sampled_from(
        ['cosine', 'cosine', 'kl', 'lev', 'custom']))
    case['feats'] = draw(feats.feature_specs(
        values={'kl': ('pos',), 'lev': ('int',), 'custom': ('int', 'float'),
                'cosine': ('float', 'float', 'int', 'pos')}[case['dist']]))
    case['feats'].update(dtype='f8', split=1)
    case['normalized'] = draw(st.sampled_from([0, 1]))
    case['how'] = draw(st.sampled_from(['cli', 'cli', 'api', 'run']))
    role = tasks.roles(case)
    names = sorted(c + e for c in role for e in ('_A', '_B', '_X')
                   if role[c] in ('other', 'by'))
    if names and draw(st.sampled_from([0, 0, 1])):
        case['regressors'] = [draw(st.sampled_from(names))]
    if draw(st.sampled_from([0, 0, 1])):
        case['filters'] = [draw(tasks.filter_specs(
            case, ('by', 'generic', 'ext')))]
    case['n_cpu'] = draw(st.sampled_from([1] * 9 + [2]))
    case['group'] = draw(st.sampled_from(['features', 'features', 'mfcc']))
    if case['dist'] in ('kl', 'custom'):
        # None is for the default of the distance function
        case['normalized'] = draw(st.sampled_from([0, 1, None]))
    # names of the user's module and function
    case['user'] = draw(st.sampled_from(
        [['dist', 'dist'], ['levenshtein', 'dist'], ['dtw_kl', 'edit'],
         ['my', 'levenshtein'], ['lev', 'dtw_kl'], ['x', 'default_distance']]
    )) if case['dist'] == 'custom' else None
    # module in the current directory
    case['here'] = draw(st.sampled_from([0, 0, 1]))
    # names of files not given
    case['bare'] = draw(st.sampled_from([0, 0, 1]))
    if case['how'] == 'run':
        # what the program that runs everything does not let one choose
        case.update(normalized=1, n_cpu=1, group='features')
        case['names'] = draw(st.sampled_from(['name', 'args', 'config',
                                              'default']))
    return case


def strategy(tier):
    return cases()


CUSTOM = '''
def dist(x, y, normalized=True):
    """Asymmetric on purpose"""
    return float(2 * abs(x.sum()) + abs(y.sum() - x.sum()) +
                 (0 if normalized else x.shape[0]))
'''


def levenshtein(u, v):
    row = list(range(len(v) + 1))
    for i, a in enumerate(u):
        new = [i + 1]
        for j, b in enumerate(v):
            new.append(min(row[j] + (a != b), row[j + 1] + 1, new[j] + 1))
        row = new
    return row[-1]


def distance(case, x, y):
    """Interval of the distance between two segments"""
    kind = case['dist']
    # the distance functions used here normalise unless told not to
    norm = case['normalized'] in (1, None)
    if kind == 'custom':
        # sums in another order may differ in the last bits
        d = 2 * abs(math.fsum(x.ravel())) + abs(
            math.fsum(y.ravel()) - math.fsum(x.ravel())) + \
            (0 if norm else len(x))
        return d - 1e-9, d + 1e-9
    if len(x) == 0 or len(y) == 0:
        return (0., 0.) if len(x) == len(y) else (math.inf, math.inf)
    if kind == 'lev':
        d = levenshtein([tuple(r) for r in x.tolist()],
                        [tuple(r) for r in y.tolist()])
        return d, d
    if kind == 'kl':
        return feats.dtw_bounds(
            feats.kl_matrix(x, y, np.finfo('f8').eps), norm, 1e-9)
    return feats.dtw_bounds(feats.cosine_matrix(x, y), norm, 1e-7)


def main(module, argv):
    old = sys.argv
    sys.argv = ['prog'] + argv
    try:
        module.main()
    finally:
        sys.argv = old


def rename(old, new):
    if os.path.exists(old):
        os.rename(old, new)


def run_chain(case, ref, texts, regs, name):
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    norm = case['normalized']
    dist = {'cosine': None, 'kl': 'dtw_kl', 'lev': 'levenshtein',
            'custom': name + '.' + (case.get('user') or [0, 'dist'])[1]
            }[case['dist']]
    if case['dist'] == 'lev':
        norm = None
    if case['how'] == 'api':
        task = tasks.make_task(ref, filters=texts or None,
                               regressors=regs or None,
                               style=case.get('style', 0))
        if case['bare']:
            task.generate_triplets()
            rename('data.abx', 'out.abx')
        else:
            task.generate_triplets(output='out.abx')
        if not os.path.exists('out.abx'):
            return False
        ABXpy.distance.run('feats0.h5f', 'out.abx', 'out.dist', norm,
                           distance=dist, njobs=case['n_cpu'],
                           group=case['group'])
        if case['bare']:
            ABXpy.score.score('out.abx', 'out.dist')
            rename('out_out.score', 'out.score')
        else:
            ABXpy.score.score('out.abx', 'out.dist', 'out.score')
        ABXpy.analyze.analyze('out.abx', 'out.score', 'out.csv')
        return True
    if case['how'] == 'run':
        return run_all(case, ref, texts, regs, dist)
    argv = ['data.item', '-o', ref.on, '--tempdir', 'tmp']
    if not case['bare']:
        argv.insert(1, 'out.abx')
    if ref.across:
        argv += ['-a'] + ref.across
    if ref.by:
        argv += ['-b'] + ref.by
    if texts:
        argv += ['-f'] + texts
    if regs:
        argv += ['-r'] + regs
    main(ABXpy.task, argv)
    if case['bare']:
        rename('data.abx', 'out.abx')
    if not os.path.exists('out.abx'):
        return False
    argv = ['feats0.h5f', 'out.abx', 'out.dist', '-j', str(case['n_cpu'])]
    if dist:
        argv += ['-d', dist]
    if norm is not None:
        argv += ['-n', str(norm)]
    if case['group'] != 'features':
        argv += ['-g', case['group']]
    if case['dist'] == 'cosine' and case['bare']:
        # whether to normalise has to be said
        try:
            main(ABXpy.distance, argv[:-2] if case['group'] == 'features'
                 else argv[:-4] + argv[-2:])
        except SystemExit as e:
            core.require(e.code, 'exit status %r without the option -n',
                         e.code)
        else:
            raise core.Violation('the option -n may be left out')
        core.require(not os.path.exists('out.dist'), 'distances computed '
                     'without the option -n')
    main(ABXpy.distance, argv)
    if case['bare']:
        main(ABXpy.score, ['out.abx', 'out.dist'])
        rename('out_out.score', 'out.score')
    else:
        main(ABXpy.score, ['out.abx', 'out.dist', 'out.score'])
    main(ABXpy.analyze, ['out.score', 'out.abx', 'out.csv'])
    return True


def run_all(case, ref, texts, regs, dist):
    """bin/ABXrun.py, with a configuration file"""
    import importlib.util
    import ABXpy
    program = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(ABXpy.__file__))), 'bin', 'ABXrun.py')
    spec = importlib.util.spec_from_file_location('ABXrun', program)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    config = {'on': ref.on}
    if ref.across:
        config['across'] = ref.across
    if ref.by:
        config['by'] = ref.by
    if texts:
        config['filters'] = texts
    if regs:
        config['reg'] = regs
    files = [(k + 'file', 'out.' + e) for k, e in (
        ('task', 'abx'), ('distance', 'dist'), ('score', 'score'),
        ('analyze', 'csv'))]
    argv = ['data.item', 'feats0.h5f', 'my.conf']
    if dist:
        if case['names'] == 'config':
            config['distance'] = dist
        else:
            argv += ['--distance', dist]
    if case['names'] == 'config':
        config.update(files)
    elif case['names'] == 'args':
        for k, v in files:
            argv += ['--' + k, v]
    elif case['names'] == 'name':
        argv += ['--name', 'out']
    with open('my.conf', 'w') as f:
        json.dump(config, f)
    before = set(os.listdir('.'))
    try:
        main(module, argv)
    except Exception:
        if any(n.endswith('.abx') for n in os.listdir('.')):
            raise
        return False
    made = [n for n in set(os.listdir('.')) - before if n.endswith('.csv')]
    core.require(len(made) == 1, 'results files: %r', made)
    if case['names'] != 'default':
        core.require(made == ['out.csv'], 'results in %r', made)
    os.rename(made[0], 'out.csv')
    return True


def run_case(case, info):
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    regs = list(case.get('regressors') or [])
    files = feats.make(ref, case['feats'])
    feats.write(files, case['feats'], group=case['group'])
    user, function = case.get('user') or ('dist', 'dist')
    name = user + '_' + hashlib.sha256(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    if case['dist'] == 'custom':
        os.mkdir('my.dir')
        if not case.get('here'):
            name = os.path.join(os.getcwd(), 'my.dir', name)
        with open(name + '.py', 'w') as f:
            f.write(CUSTOM.replace('def dist', 'def ' + function))
        # another module of that name, further on the path
        os.mkdir('decoy')
        with open(os.path.join('decoy', os.path.basename(name) + '.py'),
                  'w') as f:
            f.write('def %s(x, y, normalized=True):\n    return 1.\n'
                    % function)
    expected = ref.triplets(*tasks.filtered(ref, fs))
    total = sum(len(v) for v in expected.values())
    path = list(sys.path)
    if case['dist'] == 'custom':
        sys.path.append(os.path.abspath('decoy'))
    try:
        with core.quiet():
            there = run_chain(case, ref, texts, regs, name)
    finally:
        sys.path[:] = path
    core.require(there == (total > 0), '%d triplets expected, task file '
                 '%s', total, 'written' if there else 'not written')
    if not total:
        info.cls('no triplets')
        return
    names = ref.default_regressors() + regs
    seg = feats.Segments(files, ref)
    cache = {}

    def dis(i, x):
        if (i, x) not in cache:
            cache[i, x] = distance(case, seg[i], seg[x])
        return cache[i, x]

    groups = {}
    certain = set()
    n_certain = 0
    for by, ts in expected.items():
        for t in ts:
            a, b, x = t
            (al, ah), (bl, bh) = dis(a, x), dis(b, x)
            if ah < bl:
                lo = hi = 1.
            elif al > bh:
                lo = hi = 0.
            elif al == ah == bl == bh:
                lo = hi = .5
            elif case['feats']['values'] == 'int' and \
                    np.array_equal(seg[a], seg[b]):
                lo = hi = .5
            else:
                lo, hi = 0., 1.
            if lo == hi:
                certain.add(lo)
                n_certain += 1
            key = (by,) + tuple(tasks.norm(ref.regressor(r, *t))
                                for r in names)
            g = groups.setdefault(key, [0., 0., 0])
            g[0] += lo
            g[1] += hi
            g[2] += 1
    got = {}
    for key, v in c09.read_table('out.csv', names).items():
        by = key[0]
        if not ref.by:
            by = ()
        elif len(ref.by) == 1:
            by = (tasks.norm(by),)
        else:
            import ast
            by = tuple(tasks.norm(e) for e in ast.literal_eval(by))
        got[(by,) + key[1:]] = v
    core.require(set(got) == set(groups), 'groups missing: %r, in excess: '
                 '%r', sorted(set(groups) - set(got))[:2],
                 sorted(set(got) - set(groups))[:2])
    for key, (lo, hi, n) in groups.items():
        score, m = got[key]
        core.require(m == n, 'group %r: n is %d instead of %d', key, m, n)
        core.require(lo / n - 1e-9 <= score <= hi / n + 1e-9,
                     'group %r: score %r, brute force says %r..%r', key,
                     score, lo / n, hi / n)
    info.cls('distance ' + case['dist'])
    info.cls('normalized=%s' % case['normalized'])
    info.cls('default names', bool(case.get('bare')))
    info.cls('how ' + case['how'])
    info.cls('filters', bool(fs))
    info.cls('n_cpu=%d' % case['n_cpu'])
    info.count('triplets', total)
    info.count('triplets whose score is certain', n_certain)
    info.nontrivial = n_certain > 1 and len(certain) > 1
