"""Parent process of a check: prepares the build, runs the shards, reports.

Uses the standard library only (it may run before anything is unpacked).
"""
import argparse
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
DEPS = os.path.join(HERE, '.deps')
WHEELS = '/opt/veriftools/wheels'
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
# a case that stays silent for that long is re-run alone to confirm a hang
STALL_S = {'quick': 150, 'thorough': 240}
# nothing below is a verdict: past this, shards are stopped (inconclusive)
WALL_S = {'quick': 600, 'thorough': 4 * 3600}


def ensure_deps():
    """Unpack hypothesis from the offline wheelhouse into .deps"""
    if os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        return
    tmp = tempfile.mkdtemp(prefix='.deps-', dir=HERE)
    try:
        for pattern in ('hypothesis-*-cp312-cp312-*.whl',
                        'sortedcontainers-*.whl', 'attrs-*.whl'):
            found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
            if not found:
                raise RuntimeError('no wheel for ' + pattern)
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_dtw(dest):
    """Compile the Cython extension of the working tree into dest"""
    src = os.path.join(REPO, 'ABXpy', 'distances', 'metrics', 'dtw')
    os.makedirs(dest, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(src, '*.p[yx][xdi]'))):
        h.update(os.path.basename(f).encode())
        h.update(open(f, 'rb').read())
    so = os.path.join(dest, 'dtw' + '.cpython-312-x86_64-linux-gnu.so')
    stamp = os.path.join(dest, 'stamp')
    if os.path.exists(so) and os.path.exists(stamp) and \
            open(stamp).read() == h.hexdigest():
        return so
    work = tempfile.mkdtemp(prefix='dtw-build-')
    try:
        for f in glob.glob(os.path.join(src, '*.p[yx][xdi]')):
            shutil.copy(f, work)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        subprocess.run(
            [PY, '-m', 'cython', '-2', 'dtw.pyx', '-o', 'dtw.c'],
            cwd=work, env=env, check=True, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        inc = subprocess.run(
            [PY, '-c', 'import sysconfig, numpy;'
             'print(sysconfig.get_paths()["include"]);'
             'print(numpy.get_include())'],
            env=env, check=True, stdout=subprocess.PIPE,
            universal_newlines=True).stdout.split()
        subprocess.run(
            ['gcc', '-shared', '-fPIC', '-O3', '-fwrapv', '-w', '-pthread'] +
            ['-I' + i for i in inc] + ['dtw.c', '-o', 'dtw.so', '-lm'],
            cwd=work, check=True, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        tmp = so + '.%d' % os.getpid()
        shutil.copy(os.path.join(work, 'dtw.so'), tmp)
        os.rename(tmp, so)
        with open(stamp, 'w') as f:
            f.write(h.hexdigest())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return so


def worker_env(scratch, so):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('PYTHON') or k == 'PYTHONHASHSEED'}
    env.update(
        PYTHONPATH=os.pathsep.join(
            [os.path.join(HERE, 'harness', 'site'), REPO, HERE, DEPS]),
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
        PYTHONHASHSEED='0',
        PYTHONWARNINGS='ignore',
        PYTHONIOENCODING='utf8',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        LC_ALL='C.UTF-8', LANG='C.UTF-8',
        TMPDIR=os.path.join(scratch, 'tmp'),
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'),
        VERIF_REPO=REPO,
        VERIF_DTW_SO=so or '')
    return env


def scratch_dir():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    try:
        st = os.statvfs('/dev/shm')
        if st.f_bavail * st.f_frsize < 4 << 30:
            base = None
    except OSError:
        base = None
    d = tempfile.mkdtemp(prefix='verif-', dir=base)
    os.makedirs(os.path.join(d, 'tmp'))
    return d


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass


def spawn(args, env, cwd, log):
    return subprocess.Popen(
        [PY, '-m', 'harness.worker'] + [str(a) for a in args],
        env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=log,
        stderr=subprocess.STDOUT, start_new_session=True)


def run_replay(prop, path, env, scratch, timeout):
    """Run one case alone; returns (verdict, message)

    verdict is one of 'pass', 'fail', 'hang', 'died', 'error'.
    """
    work = tempfile.mkdtemp(prefix='replay-', dir=scratch)
    out = os.path.join(work, 'out.json')
    with open(os.path.join(work, 'log'), 'wb') as log:
        p = spawn(['--replay', prop, path, out], env, work, log)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            p.wait()
            return 'hang', 'no answer after %d s' % timeout
        finally:
            kill(p)
    if os.path.exists(out):
        res = json.load(open(out))
        if res['verdict'] == 'error':
            sys.stderr.write(res['message'])
        return res['verdict'], res['message']
    tail = open(os.path.join(work, 'log'), 'rb').read()[-2000:]
    if rc < 0:
        return 'died', 'process ended by signal %d' % -rc
    sys.stderr.write(tail.decode('utf8', 'replace'))
    return 'error', 'exit status %d' % rc


def save_replay(prop, case, message, history=None):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(
        {'property': prop, 'message': message, 'case': case,
         'history': history or []},
        indent=1, sort_keys=True, ensure_ascii=False)
    name = '%s-%s.json' % (
        prop, hashlib.sha256(json.dumps([case, history], sort_keys=True).encode())
        .hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, 'w', encoding='utf8') as f:
        f.write(body)
    return path


def known_findings(prop):
    """Findings listed for the property, as {sha of the case: text}"""
    found = {}
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get('status') == 'known' and e['property'] == prop:
                    found[e['match']] = e['what']
    return found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shards', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--keep-log', action='store_true')
    args = ap.parse_args(argv)
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'

    t0 = time.time()
    scratch = scratch_dir()
    try:
        try:
            ensure_deps()
            so = build_dtw(os.path.join(HERE, '.build')) if (
                args.setup or needs_dtw(args.property)) else None
        except subprocess.CalledProcessError as e:
            sys.stderr.write('build failed: %s\n%s\n' % (
                e, (e.stdout or b'').decode('utf8', 'replace')
                if isinstance(e.stdout, bytes) else e.stdout))
            return 2
        if args.setup:
            print('setup done in %.1f s' % (time.time() - t0))
            return 0
        if not args.property or not os.path.exists(os.path.join(
                HERE, 'harness', 'props', args.property.lower() + '.py')):
            sys.stderr.write('unknown property %s\n' % args.property)
            return 2
        env = worker_env(scratch, so)
        if args.replay:
            verdict, msg = run_replay(
                args.property, os.path.abspath(args.replay), env, scratch,
                STALL_S[args.tier])
            print('%s: %s' % (verdict, msg))
            if verdict in ('fail', 'hang', 'died'):
                print('VIOLATION property=%s replay=%s' % (
                    args.property, args.replay))
                return 1
            return 0 if verdict == 'pass' else 2
        code, unconfirmed = campaign(args, env, scratch, t0)
        if code == 2 and unconfirmed:
            # something failed once and never again: look elsewhere
            sys.stderr.write('second campaign\n')
            args.seed += 100000
            again = os.path.join(scratch, 'again')
            os.makedirs(again)
            code, _ = campaign(args, env, again, time.time())
        return code
    finally:
        if args.keep_log:
            sys.stderr.write('scratch kept: %s\n' % scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def needs_dtw(prop):
    path = os.path.join(HERE, 'harness', 'props', (prop or '').lower() + '.py')
    return os.path.exists(path) and \
        'NEEDS_DTW = True' in open(path, encoding='utf8').read()


def campaign(args, env, scratch, t0):
    prop, tier = args.property, args.tier
    n = args.shards or min(8, os.cpu_count() or 1)
    shards = []
    for i in range(n):
        work = os.path.join(scratch, 'shard%d' % i)
        os.makedirs(work)
        log = open(os.path.join(work, 'log'), 'wb')
        proc = spawn(['--shard', prop, tier, args.seed, i, n, work],
                     env, work, log)
        log.close()
        shards.append({'work': work, 'proc': proc, 'i': i})

    suspects = []        # (shard, verdict, case, message)
    errors = []
    live = list(shards)
    stalled = False
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s['proc'].poll()
            if rc is None:
                j = os.path.join(s['work'], 'journal')
                try:
                    age = time.time() - os.stat(j).st_mtime
                except OSError:
                    age = 0
                if age > STALL_S[tier]:
                    kill(s['proc'])
                    s['proc'].wait()
                    case = read_journal(j)
                    if case is not None:
                        suspects.append((s, 'hang', case, 'stalled'))
                    else:
                        errors.append('shard %d stalled' % s['i'])
                    live.remove(s)
                continue
            live.remove(s)
            out = os.path.join(s['work'], 'out.json')
            if os.path.exists(out):
                s['out'] = json.load(open(out))
                v = s['out']['verdict']
                if v in ('fail', 'hang'):
                    suspects.append((s, v, s['out']['case'],
                                     s['out']['message']))
                elif v == 'error':
                    errors.append(s['out']['message'])
            else:
                case = read_journal(os.path.join(s['work'], 'journal'))
                if rc < 0 and case is not None:
                    suspects.append((s, 'died', case, 'signal %d' % -rc))
                else:
                    errors.append('shard %d ended with status %s\n%s' % (
                        s['i'], rc, tail(os.path.join(s['work'], 'log'))))
        if suspects or time.time() - t0 > WALL_S[tier]:
            stalled = not suspects
            for s in live:
                kill(s['proc'])
                s['proc'].wait()
                p = os.path.join(s['work'], 'progress.json')
                if os.path.exists(p):
                    s['out'] = json.load(open(p))
            live = []
    for s in shards:
        kill(s['proc'])

    # confirm alone, in a fresh process, before reporting anything
    known = known_findings(prop)
    confirmed, unconfirmed = [], 0
    for s, v, case, message in suspects:
        sha = hashlib.sha256(
            json.dumps(case, sort_keys=True).encode()).hexdigest()
        path = save_replay(prop, case, message)
        verdict, msg = run_replay(prop, path, env, scratch, STALL_S[tier])
        for _ in range(3):      # it may depend on scheduling
            if verdict != 'pass' or v == 'hang':
                break
            verdict, msg = run_replay(
                prop, path, env, scratch, STALL_S[tier])
        first = (s.get('out') or {}).get('first')
        if verdict == 'pass' and first:
            # it may take the calls made before it, in the same process
            os.remove(path)
            case = first[1]
            path = save_replay(prop, case, message, first[0])
            verdict, msg = run_replay(
                prop, path, env, scratch, STALL_S[tier])
        if verdict in ('fail', 'hang', 'died'):
            if sha in known:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[sha]))
            else:
                confirmed.append((path, msg))
        else:
            os.remove(path)
            unconfirmed += 1
            errors.append('not confirmed when run alone (%s): %s\ncase: %s' % (
                verdict, message, json.dumps(case)[:3000]))

    write_evidence(args, shards, t0, len(confirmed), stalled)
    if confirmed:
        confirmed.sort(key=lambda c: os.path.getsize(c[0]))
        path, msg = confirmed[0]
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1, False
    if errors:
        for e in errors:
            sys.stderr.write('check error: %s\n' % e)
        return 2, len(errors) == unconfirmed
    return 0, False


def read_journal(path):
    try:
        return json.load(open(path, encoding='utf8'))
    except (OSError, ValueError):
        return None


def tail(path):
    try:
        return open(path, 'rb').read()[-3000:].decode('utf8', 'replace')
    except OSError:
        return ''


def write_evidence(args, shards, t0, violations, stalled):
    ev, classes, samples, rule, assume = 0, {}, [], '', []
    hashes, truncated, fixed = set(), 0, 0
    extra = {}
    for s in shards:
        o = s.get('out')
        if not o:
            continue
        ev += o['evaluations']
        fixed += o.get('fixed', 0)
        truncated += o.get('truncated', 0)
        hashes.update(o['nontrivial'])
        rule, assume = o['rule'], o['assumptions']
        for k, v in o['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in o.get('counters', {}).items():
            extra[k] = extra.get(k, 0) + v
        if len(samples) < 6:
            samples.extend(o['samples'][:2])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    doc = {
        'property': args.property, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(hashes),
            'rule': rule,
            'samples': samples[:6],
            'enumerated_cases': fixed,
            'classes': dict(sorted(classes.items())),
            'counters': dict(sorted(extra.items())),
            'cases_not_run_because_of_the_time_cap': truncated,
            'stopped_by_wall_cap': stalled,
            'shards': len(shards),
        },
        'assumptions': assume,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    path = os.path.join(HERE, 'evidence', args.property + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w', encoding='utf8') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    os.rename(tmp, path)
    print('%s %s seed=%d: %d cases (%d distinct non-trivial), %.1f s' % (
        args.property, args.tier, args.seed, ev, len(hashes),
        time.time() - t0))
