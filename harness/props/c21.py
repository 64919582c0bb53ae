"""C21: conversion of features, and verification of the inputs"""
import os
import runpy
import sys

import h5py
import numpy as np
from hypothesis import strategies as st

from .. import core
from ..core import require, expect_raises

NEEDS_DTW = True
BUDGET = {'quick': {'cases': 4500, 'wall': 35},
          'thorough': {'cases': 20000, 'wall': 900}}
RULE = ('1-9 generated archives of times and features (1-12 frames, 1-5 '
        'dimensions, float32/64, names with dots and accents), converted in '
        'batches of 1-4 or 500 files, in one or two calls, from numpy files '
        'or by a user function, then read back; item files verified against '
        'them, with missing files, misnamed columns and blank lines, by the '
        'function or the command, in the layouts of recent and old features '
        'files. '
        'Non-trivial: at least two files and one batch limit crossed, or a '
        'verification that must fail.')
ASSUMPTIONS = ['times and features are stored under the names the code '
               'reads, time and features']

NAMES = ['a', 'b', 'f1', 'f10', 'f2', 'x.y', 'é', 'take-3', '007', 'Z',
         's01_2', 'npz', 'a b']


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=9,
                          unique=True))
    return {
        'names': names, 'seed': draw(st.integers(0, 10 ** 6)),
        'dim': draw(st.integers(1, 5)),
        'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
        'frames': [draw(st.integers(1, 12)) for _ in names],
        'batch': draw(st.sampled_from([None, 1, 2, 3, 4, len(names)])),
        'calls': draw(st.sampled_from([1, 1, 2])),
        'load': draw(st.booleans()),
        'how': draw(st.sampled_from(['list', 'list', 'folder', 'cli'])),
        'fault': draw(st.sampled_from(
            [None, None, 'file', 'file', '#file', 'onset', 'offset', 'hash',
             'short'])),
        'items': draw(st.lists(st.integers(0, 30), min_size=1, max_size=8)),
        'blank': draw(st.booleans()), 'at': draw(st.integers(0, 20)),
        'old': draw(st.sampled_from([0, 0, 1])),
        'vhow': draw(st.sampled_from(['check', 'cli', 'verbose'])),
    }


def strategy(tier):
    return cases()


def run_script(path, *args):
    old = sys.argv
    sys.argv = [os.path.basename(path)] + list(args)
    try:
        runpy.run_path(path, run_name='__main__')
    finally:
        sys.argv = old


def run_case(case, info):
    from ABXpy.misc import any2h5features
    import h5features
    rng = np.random.RandomState(case['seed'])
    names = case['names']
    data = {}
    os.mkdir('npz')
    for n, k in zip(names, case['frames']):
        t = np.cumsum(rng.randint(1, 5, k)) * 0.0625
        f = rng.randn(k, case['dim']).astype(case['dtype'])
        data[n] = (t, f)
        if case['load']:
            with open(os.path.join('npz', n + '.txt'), 'w') as h:
                h.write('placeholder')
        else:
            np.savez(os.path.join('npz', n + '.npz'), time=t, features=f)
    ext = '.txt' if case['load'] else '.npz'
    kw = {}
    if case['load']:
        def load(path):
            require(os.path.isfile(path), 'asked to load %s', path)
            t, f = data[os.path.splitext(os.path.basename(path))[0]]
            return {'time': t, 'features': f}
        kw['load'] = load
    with core.quiet():
        if case['how'] == 'list' or (case['how'] == 'cli' and case['load']):
            files = [n + ext for n in names]
            if case['batch']:
                kw['batch_size'] = case['batch']
            cut = len(files) // 2 if case['calls'] == 2 else 0
            for part in (files[:cut], files[cut:]):
                if part:
                    any2h5features.any_to_h5features(
                        'npz', part, 'out.h5f', '/features/', **kw)
        elif case['how'] == 'folder':
            any2h5features.convert('npz', 'out.h5f', **kw)
        else:
            run_script(any2h5features.__file__, 'npz', 'out.h5f')
        times, features = h5features.read('out.h5f', 'features')[:2]
    require(sorted(times) == sorted(names) and
            sorted(features) == sorted(names),
            'the files are %s instead of %s', sorted(times), sorted(names))
    for n in names:
        require(np.array_equal(np.ravel(times[n]), data[n][0]),
                'times of %s changed: %s instead of %s', n, times[n],
                data[n][0])
        require(features[n].shape == data[n][1].shape and
                np.array_equal(features[n], data[n][1]),
                'features of %s changed', n)
    info.cls('how ' + case['how'])
    info.cls('several batches', bool(
        case['batch'] and case['batch'] < len(names)))
    if case['batch'] and case['batch'] < len(names) and len(names) > 1:
        info.nontrivial = True
    verify(case, names, info)


def verify(case, names, info):
    import ABXpy.verify
    usable = [n for n in names if ' ' not in n]
    if not usable:
        return
    fault = case['fault']
    head = ['#file', 'onset', 'offset', '#phone', 'talker']
    rows = [[usable[i % len(usable)], '0', '0.5', 'p', 't']
            for i in case['items']]
    at = case['at'] % len(rows)
    if fault == 'file':
        stranger = ['nope', usable[0] + 'x', 'A' * 9, usable[0].upper() +
                    '_', usable[0][:-1] or 'q', usable[0].swapcase(),
                    usable[0] + '.npz'][case['at'] % 7]
        if stranger in names:
            stranger = 'nope'
        rows[at][0] = stranger
    elif fault in ('#file', 'onset', 'offset'):
        head[head.index(fault)] = ['file', 'start', 'x'][case['at'] % 3]
    elif fault == 'hash':
        head[3] = 'phone'
    elif fault == 'short':
        head = head[:3]
        rows = [r[:3] for r in rows]
    lines = [' '.join(head)] + [' '.join(r) for r in rows]
    if case['blank']:
        lines += ['', '  ']
    with open('data.item', 'w', encoding='utf8') as f:
        f.write('\n'.join(lines) + '\n')

    if case.get('old'):
        # the name of this dataset in old versions of h5features
        with h5py.File('out.h5f', 'a') as f:
            f.move('features/items', 'features/files')

    def check():
        if case['vhow'] == 'cli':
            # as by python verify.py data.item out.h5f
            return run_script(ABXpy.verify.__file__, 'data.item', 'out.h5f')
        ABXpy.verify.check('data.item', 'out.h5f',
                           1 if case['vhow'] == 'verbose' else 0)
    if fault is None:
        with core.quiet():
            check()
    else:
        expect_raises(check, (AssertionError,), 'verification (%s)' % fault)
        info.nontrivial = True
    info.cls('old layout', bool(case.get('old')))
    info.cls('verify %s by %s' % (fault, case['vhow']))
