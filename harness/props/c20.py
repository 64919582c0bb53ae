"""C20: failures are reported, inputs are left alone, nothing is left behind"""
import errno
import os
import sys
import tempfile

import h5py
from hypothesis import strategies as st

from .. import core, feats, h5dump, tasks
from ..core import require, expect_raises
from . import c07, c10

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 1200, 'wall': 50},
          'thorough': {'cases': 16000, 'wall': 1500}}
RULE = ('a generated task, features and run of task, distance, score and '
        'analyze (python or command line, 1 or 2 processes, own temporary '
        'directory) with a generated fault: the n-th write, read, creation '
        'or resizing of a dataset or attribute fails, the n-th distance or '
        'filter evaluation raises, an input is missing, an output exists, or none. The failure must reach the '
        'caller, inputs and existing outputs keep their content, the '
        'temporary directory ends empty, an unfinished distance file is not '
        'marked done, and a second attempt gives what a run without fault '
        'gives. Non-trivial: the fault took place.')
ASSUMPTIONS = ['faults are injected in the h5py calls that read and store data']

FAULTS = ['none', 'write task', 'write task', 'write distance',
          'write score', 'distance', 'distance', 'filter', 'missing',
          'exists', 'exists', 'cli again']


class Boom(Exception):
    pass


# what a write can end with
ERRORS = [OSError, OSError, MemoryError, RuntimeError, KeyboardInterrupt]


@st.composite
def cases(draw):
    case = draw(tasks.task_cases(min_rows=4, max_rows=9, max_across=1,
                                 aux=True, pads=False, kinds='sssswif'))
    case['win'] = draw(feats.windows())
    case['feats'] = draw(feats.feature_specs())
    case['feats'].update(split=1)
    case['fault'] = FAULTS[draw(st.integers(0, 10 ** 6)) % len(FAULTS)]
    case['at'] = draw(st.one_of(st.integers(0, 5), st.integers(0, 40)))
    case['n_cpu'] = draw(st.sampled_from([1, 1, 1, 2]))
    case['kind'] = draw(st.integers(0, len(ERRORS) - 1))
    case['op'] = draw(st.integers(0, len(OPS) - 1))
    case['pick'] = draw(st.integers(0, 100))
    case['threshold'] = draw(st.sampled_from([None, None, 2]))
    case['tmparg'] = draw(st.booleans())
    if draw(st.booleans()):
        case['filters'] = [draw(tasks.filter_specs(
            case, ('generic', 'ext')))]
    return case


def strategy(tier):
    return cases()


# the operations on files that can fail
OPS = [('write', h5py.Dataset, '__setitem__'),
       ('write', h5py.Dataset, '__setitem__'),
       ('create', h5py.Group, 'create_dataset'),
       ('read', h5py.Dataset, '__getitem__'),
       ('resize', h5py.Dataset, 'resize'),
       ('attribute', h5py.AttributeManager, 'create'),
       ('attribute', h5py.AttributeManager, 'modify')]


class Countdown(object):
    """Fails at the n-th write (or other operation) of a dataset"""
    def __init__(self, n, kind=0, op=0):
        self.left, self.fired, self.kind = n, False, ERRORS[kind]
        _, self.cls, self.name = OPS[op]
        self.real = getattr(self.cls, self.name)

    def __enter__(self):
        def operation(obj, *args, **kw):
            if self.left == 0:
                self.left = -1
                self.fired = True
                raise self.kind(errno.EIO, 'injected fault')
            self.left -= 1
            return self.real(obj, *args, **kw)
        setattr(self.cls, self.name, operation)
        return self

    def __exit__(self, *exc):
        setattr(self.cls, self.name, self.real)


class Failing(object):
    """A distance that fails at its n-th call (in each process)"""
    def __init__(self, n):
        self.left = n

    def __call__(self, x, y):
        if self.left == 0:
            raise Boom('distance')
        self.left -= 1
        return c07.record(x, y)


FILTER = '''
import faulty_{name}
faulty_{name}.check([v for v in {var}])
'''
MODULE = '''
left = {n}
def check(values):
    global left
    if left == 0:
        left = -1
        raise ZeroDivisionError('filter')
    left -= 1
    return [True for v in values]
'''


def content(paths):
    out = {}
    for p in paths:
        if p.endswith(('.abx', '.dist', '.score')):
            out[p] = h5dump.h5(p)
        else:
            with open(p, 'rb') as f:
                out[p] = f.read()
    return out


class Run(object):
    def __init__(self, case, ref, texts):
        self.case, self.ref, self.texts = case, ref, texts
        self.tmp = os.path.abspath('tmp')
        self.tmparg = self.tmp
        if case['tmparg']:
            os.makedirs('mytmp', exist_ok=True)
            self.tmparg = os.path.abspath('mytmp')

    def task(self, texts=None):
        t = tasks.make_task(self.ref, filters=(texts or self.texts) or None)
        t.generate_triplets(output='out.abx', seed=3,
                            threshold=self.case['threshold'],
                            tmpdir=self.tmparg)

    def distance(self, fun=c07.record, n_cpu=None):
        from ABXpy.distances import distances
        distances.compute_distances(
            'feats0.h5f', 'features', 'out.abx', 'out.dist', fun, None,
            n_cpu=n_cpu or self.case['n_cpu'])

    def score(self):
        import ABXpy.score
        ABXpy.score.score('out.abx', 'out.dist', 'out.score')

    def analyze(self):
        import ABXpy.analyze
        ABXpy.analyze.analyze('out.abx', 'out.score', 'out.csv')

    def clean(self, what):
        for d in ('tmp', 'mytmp'):
            left = os.listdir(d) if os.path.isdir(d) else []
            # multiprocessing puts its sockets there while it runs
            left = [x for x in left if not x.startswith('pymp-')]
            require(not left, '%s left temporary files behind: %s', what,
                    left)


def run_case(case, info):
    old = tempfile.tempdir
    os.mkdir('tmp')
    tempfile.tempdir = os.path.abspath('tmp')
    path = list(sys.path)
    try:
        run(case, info)
    finally:
        tempfile.tempdir = old
        sys.path[:] = path


def run(case, info):
    ref = tasks.Ref(case)
    ref.write()
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    files = feats.make(ref, case['feats'])
    feats.write(files, case['feats'])
    inputs = sorted(p for p in os.listdir('.') if os.path.isfile(p))
    before = content(inputs)
    fault, at = case['fault'], case['at']
    r = Run(case, ref, texts)
    expected = ref.triplets(*tasks.filtered(ref, fs))
    if not any(expected.values()):
        with core.quiet():
            r.task()
        r.clean('an empty task')
        require(not os.path.exists('out.abx'), 'an empty task was written')
        info.cls('no triplets')
        return
    fired = False
    kept = {}

    def attempt(fn, types, what, expect):
        """run with the fault; True when the fault took place"""
        try:
            with core.quiet():
                fn()
        except types as e:
            require(expect(), '%s failed with %r before any fault', what, e)
            return True
        except Exception as e:
            if not expect():
                raise
            # the fault may be reported in another way
            return True
        require(not expect(), '%s: the failure was not reported', what)
        return False

    # ---- task
    if fault == 'write task':
        with Countdown(at, case.get('kind', 0), case.get('op', 0)) as c:
            fired = attempt(r.task, c.kind, 'task', lambda: c.fired)
        r.clean('a failed task')
        if fired and os.path.exists('out.abx'):
            os.remove('out.abx')
    elif fault == 'filter':
        name = 'f%d' % (abs(hash(os.getcwd())) % 10 ** 9)
        sys.path.insert(0, os.getcwd())
        with open('faulty_%s.py' % name, 'w') as f:
            f.write(MODULE.format(n=at % 6))
        var = [ref.on + '_A', ref.on + '_B', ref.cols[-1] + '_X'][
            case['pick'] % 3]
        with open('bad.py', 'w', encoding='utf8') as f:
            f.write(FILTER.format(name=name, var=var))
        inputs += ['bad.py', 'faulty_%s.py' % name]
        before = content(inputs)
        mod = 'faulty_' + name

        def blown():
            return mod in sys.modules and sys.modules[mod].left == -1
        try:
            fired = attempt(lambda: r.task(texts + ['bad.py']),
                            ZeroDivisionError, 'task', blown)
        finally:
            sys.modules.pop(mod, None)
        r.clean('a failed task')
        if os.path.exists('out.abx'):
            os.remove('out.abx')
    if not os.path.exists('out.abx'):
        with core.quiet():
            r.task()
    r.clean('the task')
    tasks_ok(ref, expected, case)
    inputs2 = inputs + ['out.abx']
    kept = content(['out.abx'])

    # ---- existing outputs and missing inputs
    if fault == 'exists':
        with open('out.dist', 'wb') as f:
            f.write(b'not mine')
        fn = {'task': (r.task, ValueError)}
        expect_raises(r.task, (ValueError,), 'task over an existing file')
        require(not h5dump.difference(content(['out.abx'])['out.abx'],
                                      kept['out.abx']),
                'the existing task file was changed')
        os.remove('out.dist')
        fired = True
    if fault == 'missing':
        p = case['pick'] % 3
        if p == 0:
            os.rename('feats0.h5f', 'hidden')
            expect_raises(r.distance, (Exception,), 'distance without '
                          'features')
            os.rename('hidden', 'feats0.h5f')
        elif p == 1:
            os.rename('out.abx', 'hidden')
            expect_raises(r.distance, (Exception,), 'distance without task')
            expect_raises(r.score, (AssertionError,), 'score without task')
            os.rename('hidden', 'out.abx')
        else:
            expect_raises(r.score, (AssertionError,),
                          'score without distances')
        require(not os.path.exists('out.score'), 'a score file was written')
        require(not done(), 'distances that were not computed are marked '
                'as done')
        if os.path.exists('out.dist'):
            os.remove('out.dist')
        fired = True

    # ---- distance
    if fault == 'write distance':
        with Countdown(at % (2 if case.get('op', 0) < 2 else 12), case.get('kind', 0), case.get('op', 0)) as c:
            fired = attempt(lambda: r.distance(n_cpu=1), c.kind, 'distance',
                            lambda: c.fired)
    elif fault == 'distance':
        n_pairs = pairs()
        k = at % max(1, n_pairs)
        # one of the processes gets at least its share of the pairs
        sure = k < -(-n_pairs // case['n_cpu'])
        try:
            with core.quiet():
                r.distance(Failing(k))
            require(not sure, 'the failure of a distance was not reported')
        except Boom:
            fired = True
    if fired and fault in ('write distance', 'distance'):
        require(not done(), 'a failed computation is marked as done')
        if os.path.exists('out.dist'):
            os.remove('out.dist')
    if not os.path.exists('out.dist') or not done():
        if os.path.exists('out.dist'):
            os.remove('out.dist')
        with core.quiet():
            r.distance()
    require(done(), 'complete distances are not marked as done')
    kept.update(content(['out.dist']))
    if fault == 'exists':
        expect_raises(r.distance, (Exception,),
                      'distance over an existing file')
        a, b = content(['out.dist'])['out.dist'], kept['out.dist']
        require(a == b, 'existing distances were changed: %s',
                h5dump.difference(a, b))

    # ---- score
    if fault == 'write score':
        with Countdown(at % (3 if case.get('op', 0) < 2 else 12), case.get('kind', 0), case.get('op', 0)) as c:
            fired = attempt(r.score, c.kind, 'score', lambda: c.fired)
        if fired and os.path.exists('out.score'):
            os.remove('out.score')
    if not os.path.exists('out.score'):
        with core.quiet():
            r.score()
    kept.update(content(['out.score']))
    if fault == 'exists':
        expect_raises(r.score, (AssertionError,),
                      'score over an existing file')
    with core.quiet():
        r.analyze()
    now = content(['out.abx', 'out.dist', 'out.score'])
    for p in now:
        d = h5dump.difference(now[p], kept[p])
        require(not d, '%s was changed by a later step: %s', p, d[:4])
    after = content(inputs)
    for p in inputs:
        require(after[p] == before[p], 'the input %s was changed', p)
    r.clean('the run')

    # ---- the same without fault
    final = content(['out.abx', 'out.dist', 'out.score', 'out.csv'])
    if fired:
        for p in final:
            os.remove(p)
        with core.quiet():
            for fn in (r.task, r.distance, r.score, r.analyze):
                fn()
        again = content(final)
        for p in final:
            same = not h5dump.difference(again[p], final[p]) if isinstance(
                final[p], dict) else again[p] == final[p]
            require(same, '%s differs from that of a run without fault', p)
    if fault == 'cli again':
        cli_again(case, ref, texts, r, final)
        fired = True
    extra = set(os.listdir('.')) - set(inputs) - {
        'out.abx', 'out.dist', 'out.score', 'out.csv', 'tmp', 'mytmp',
        'data-removed.item', '__pycache__'}
    require(not extra, 'unexpected files: %s', sorted(extra))
    if fired and fault.startswith('write'):
        info.cls('operation ' + OPS[case['op']][0])
    info.cls('fault ' + fault, fired or fault == 'none')
    info.cls('n_cpu=%d' % case['n_cpu'])
    info.nontrivial = fired


def cli_again(case, ref, texts, r, final):
    """Command line: outputs of an earlier run are replaced, not mixed in"""
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    argv = ['data.item', 'out.abx', '-o', ref.on, '--seed', '3']
    for flag, v in (('-a', ref.across), ('-b', ref.by), ('-f', texts)):
        if v:
            argv += [flag] + v
    if case['threshold']:
        argv += ['-t', str(case['threshold'])]
    with core.quiet():
        c10.main(ABXpy.task, argv)
    d = h5dump.difference(content(['out.abx'])['out.abx'], final['out.abx'])
    require(not d, 'the task made again on the command line differs: %s',
            d[:4])
    with core.quiet():
        c10.main(ABXpy.distance, ['feats0.h5f', 'out.abx', 'out.dist', '-n',
                                  '1'])
        require(done(), 'the distances made again are not marked as done')
        c10.main(ABXpy.score, ['out.abx', 'out.dist', 'out.score'])
        c10.main(ABXpy.analyze, ['out.score', 'out.abx', 'out.csv'])
        first = content(['out.dist', 'out.score', 'out.csv'])
        c10.main(ABXpy.distance, ['feats0.h5f', 'out.abx', 'out.dist', '-n',
                                  '1'])
        c10.main(ABXpy.score, ['out.abx', 'out.dist', 'out.score'])
        c10.main(ABXpy.analyze, ['out.score', 'out.abx', 'out.csv'])
    for p, v in content(first).items():
        require(v == first[p], '%s differs when made again over the old one',
                p)


def pairs():
    with h5py.File('out.abx', 'r') as f:
        return f['unique_pairs/data'].shape[0]


def done():
    if not os.path.exists('out.dist'):
        return False
    try:
        with h5py.File('out.dist', 'r') as f:
            return bool(f.attrs.get('done', False))
    except (OSError, UnicodeDecodeError):
        return False


def tasks_ok(ref, expected, case):
    blocks = tasks.decode('out.abx', ref)
    if not case['threshold']:
        tasks.compare_triplets(blocks, expected)
