"""Runs a whole ABX computation, here or in another python process"""
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True


def compute(case, style, out):
    """Task, distance, score and analyze of a case, in the current directory.

    style: {'verbose', 'absolute', 'noise', 'repeat', 'n_cpu', 'cli',
            'tmp'}
    """
    import numpy as np
    from harness import core, feats, h5dump, tasks
    from harness.props import c07, c10
    import ABXpy.task
    import ABXpy.score
    import ABXpy.analyze
    from ABXpy.distances import distances
    ref = tasks.Ref(case)
    fs = case.get('filters') or []
    texts = [tasks.filter_text(f, case, k) for k, f in enumerate(fs)]
    regs = list(case.get('regressors') or [])
    names = {e: out + '.' + e for e in ('abx', 'dist', 'score', 'csv')}
    item = os.path.abspath('data.item') if style['absolute'] else 'data.item'
    noise = style['noise']
    with core.quiet():
        np.random.seed(noise)
        np.random.rand(noise % 7)
        kw = {}
        if texts:
            kw['filters'] = texts
        if regs:
            kw['regressors'] = regs
        task = ABXpy.task.Task(item, ref.on, list(ref.across), list(ref.by),
                               verbose=style['verbose'], **kw)
        stats = {k: str(v) for k, v in sorted(task.stats.items())
                 if np.isscalar(v)}
        np.random.rand(noise % 5)
        tmp = os.path.abspath(out + '-tmp') if style.get('tmp') else None
        if tmp and noise % 2:
            os.mkdir(tmp)
        if style.get('cli'):
            argv = [item, names['abx'], '-o', ref.on]
            for flag, more in (('-a', ref.across), ('-b', ref.by),
                               ('-f', texts), ('-r', regs)):
                if more:
                    argv += [flag] + list(more)
            if case.get('threshold') is not None:
                argv += ['-t', str(case['threshold'])]
            if tmp:
                argv += ['--tempdir', tmp]
            if style['verbose']:
                argv += ['-v']
            c10.main(ABXpy.task, argv + ['--seed', str(case['rseed'])])
        elif tmp and not os.path.exists(tmp):
            os.mkdir(tmp)
        for k in range(0 if style.get('cli') else style['repeat']):
            # the last one counts; earlier ones with other settings
            last = k == style['repeat'] - 1
            task.generate_triplets(
                output=names['abx'] if last else '%s-%d.abx' % (out, k),
                threshold=case.get('threshold') if last else
                (None, 1)[k % 2],
                tmpdir=tmp,
                seed=case['rseed'] if last else case['rseed'] + 5)
        if not os.path.exists(names['abx']):
            return {'stats': stats}
        distances.compute_distances(
            'feats0.h5f', 'features', names['abx'], names['dist'],
            c07.record, None, n_cpu=style['n_cpu'])
        if style.get('cli'):
            c10.main(ABXpy.score, [names['abx'], names['dist'],
                                   names['score']])
            c10.main(ABXpy.analyze, [names['score'], names['abx'],
                                     names['csv']])
        else:
            ABXpy.score.score(names['abx'], names['dist'], names['score'])
            ABXpy.analyze.analyze(names['abx'], names['score'],
                                  names['csv'])
    res = {e: h5dump.h5(names[e]) for e in ('abx', 'dist', 'score')}
    # blocks without triplets may or may not have left an empty group
    bys = ['regressors/%s/' % b for b in res['abx']['bys'][1]]
    # (on_across_block_index is internal: nothing reads it)
    res['abx'] = {k: v for k, v in res['abx'].items() if v != 'group' and
                  not k.endswith('on_across_block_index') and (
        not k.startswith('regressors/') or
        any(k.startswith(b) for b in bys))}
    with open(names['csv'], encoding='utf8') as f:
        res['csv'] = {str(i): s for i, s in enumerate(f.read().split('\n'))}
    res['stats'] = stats
    return res


class Server(object):
    """Another process, with another hash seed"""
    def __init__(self, hash_seed):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        self.p = subprocess.Popen(
            [sys.executable, '-m', 'harness.repro'], env=env,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, encoding='utf8')

    def ask(self, case, style, out):
        self.p.stdin.write(json.dumps(
            [os.getcwd(), case, style, out]) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('the other process ended')
        return json.loads(line)


def main():
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    answer = os.fdopen(os.dup(1), 'w', encoding='utf8')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        d, case, style, out = json.loads(line)
        os.chdir(d)
        for _ in range(5):
            try:
                res = compute(case, style, out)
            except Exception:
                res = {'error': traceback.format_exc()}
                if 'UnicodeDecodeError' in res['error'] and \
                        'h5py' in res['error']:
                    for f in os.listdir('.'):
                        if f.startswith(out):
                            os.remove(f)
                    continue
            break
        os.chdir('/')
        answer.write(json.dumps(res) + '\n')
        answer.flush()


if __name__ == '__main__':
    main()
