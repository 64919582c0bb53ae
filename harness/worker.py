"""Child process of a check: generates and runs the cases of one shard"""
import errno
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

CASE_TIMEOUT = {'quick': 40, 'thorough': 90}
SHRINK_S = {'quick': 60, 'thorough': 240}


class CaseTimeout(BaseException):
    pass


class Abort(BaseException):
    pass


class Enough(BaseException):
    """The time given to the search is used up"""


def load(prop):
    import numpy as np
    # names the code under test uses, removed from recent numpy versions
    repo = os.environ['VERIF_REPO']
    import ABXpy
    if not os.path.realpath(ABXpy.__file__).startswith(
            os.path.realpath(repo) + os.sep):
        raise RuntimeError('ABXpy imported from ' + ABXpy.__file__)
    mod = importlib.import_module('harness.props.' + prop.lower())
    np.seterr(all='ignore')
    return mod


def is_resource_error(e):
    if isinstance(e, MemoryError):
        return True
    if isinstance(e, OSError) and e.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN,
            errno.ENOMEM):
        return True
    return False


def run_case(mod, case, timeout):
    """Returns (verdict, message, info)

    The h5py installed here sometimes fails to decode the message of an HDF5
    error (a missing file or key, say), which has nothing to do with the code
    under test: such a case is run again.
    """
    for _ in range(6):
        verdict, message, info = run_case_once(mod, case, timeout)
        if verdict != 'fail' or not (
                'UnicodeDecodeError' in message and 'h5py' in message):
            break
    return verdict, message, info


def run_case_once(mod, case, timeout):
    import numpy as np
    from harness import core
    seed = int(hashlib.sha256(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)
    np.random.seed(seed)
    random.seed(seed)
    info = core.Info()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(timeout))
    cwd = os.getcwd()
    try:
        with core.workdir():
            mod.run_case(json.loads(json.dumps(case)), info)
        return 'pass', '', info
    except CaseTimeout:
        return 'hang', 'no answer after %d s' % timeout, info
    except core.HarnessError as e:
        return 'error', 'harness: %s' % traceback.format_exc(), info
    except core.Violation as e:
        return 'fail', str(e), info
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if is_resource_error(e):
            return 'error', traceback.format_exc(), info
        tb = traceback.format_exc()
        return 'fail', 'unexpected %s: %s\n%s' % (
            type(e).__name__, e, tb[-2500:]), info
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)


class Shard(object):
    def __init__(self, prop, tier, seed, shard, nshards, work):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards, self.work = shard, nshards, work
        self.mod = load(prop)
        self.evaluations = self.truncated = self.fixed = 0
        self.nontrivial, self.classes, self.counters = set(), {}, {}
        self.samples, self.big = [], []
        self.best = None
        self.history, self.first = [], None
        self.t0 = time.time()
        self.cap = self.mod.BUDGET[tier].get('wall', 60)
        self.shrink_end = None
        self.last_progress = 0

    def journal(self, case):
        path = os.path.join(self.work, 'journal')
        with open(path, 'w', encoding='utf8') as f:
            json.dump(case, f)

    def evaluate(self, case):
        """True when the case fails"""
        self.journal(case)
        verdict, message, info = run_case(
            self.mod, case, CASE_TIMEOUT[self.tier])
        if verdict == 'error':
            self.finish('error', None, message)
            raise Abort()
        searching = self.best is None
        if searching:
            self.evaluations += 1
            for c in info.classes:
                self.classes[c] = self.classes.get(c, 0) + 1
            for c, n in info.counters.items():
                self.counters[c] = self.counters.get(c, 0) + n
            if info.nontrivial:
                blob = json.dumps(case, sort_keys=True)
                h = hashlib.sha256(blob.encode()).hexdigest()[:16]
                if h not in self.nontrivial:
                    self.nontrivial.add(h)
                    if len(blob) < 2500 and len(self.samples) < 3 and \
                            len(self.nontrivial) % 7 == 1:
                        self.samples.append(case)
            if time.time() - self.last_progress > 2:
                self.last_progress = time.time()
                self.finish('partial', None, '', 'progress.json')
        if verdict in ('fail', 'hang'):
            blob = json.dumps(case, sort_keys=True)
            if self.best is None:
                self.shrink_end = time.time() + SHRINK_S[self.tier]
                self.first = (list(self.history), case)
            if self.best is None or len(blob) <= len(self.best[0]):
                self.best = (blob, verdict, case, message)
            if verdict == 'hang':
                raise Abort()
        elif self.best is None:
            self.history = (self.history + [case])[-8:]
        return verdict in ('fail', 'hang')

    def finish(self, verdict, case, message, name='out.json'):
        doc = {
            'verdict': verdict, 'case': case, 'message': message,
            'evaluations': self.evaluations, 'truncated': self.truncated,
            'fixed': self.fixed,
            'nontrivial': sorted(self.nontrivial), 'classes': self.classes,
            'counters': self.counters, 'samples': self.samples,
            'rule': self.mod.RULE,
            'assumptions': getattr(self.mod, 'ASSUMPTIONS', []),
            'first': self.first,
        }
        tmp = os.path.join(self.work, name + '.tmp')
        with open(tmp, 'w', encoding='utf8') as f:
            json.dump(doc, f)
        os.rename(tmp, os.path.join(self.work, name))

    def run(self):
        try:
            self.search()
        except Abort:
            if os.path.exists(os.path.join(self.work, 'out.json')):
                return
        if self.best is not None:
            _, verdict, case, message = self.best
            self.finish(verdict, case, message)
        else:
            self.finish('pass', None, '')

    def search(self):
        # enumerated cases first (regressions and exhaustive small scopes)
        if hasattr(self.mod, 'fixed_cases'):
            for k, case in enumerate(self.mod.fixed_cases(self.tier)):
                if k % self.nshards == self.shard:
                    self.fixed += 1
                    if self.evaluate(case):
                        raise Abort()
        n = self.mod.BUDGET[self.tier]['cases']
        n = (n + self.nshards - 1) // self.nshards
        strategy = self.mod.strategy(self.tier)
        key = int(hashlib.sha256(('%s/%d/%d' % (
            self.prop, self.seed, self.shard)).encode()).hexdigest()[:12], 16)

        # most cases are drawn independently of each other; the last part
        # lets hypothesis also make variants of the cases it has run
        plain = self.plain_backend()
        parts = [(plain, 0.75), ('hypothesis', 1.)] if plain else [
            ('hypothesis', 1.)]
        before = 0.
        for backend, upto in parts:
            self.generate(strategy, key, max(1, int(n * (upto - before))),
                          backend, self.t0 + self.cap * upto)
            before = upto

    @staticmethod
    def plain_backend():
        """Generation without reuse of the earlier cases"""
        try:
            from hypothesis.internal.conjecture import providers

            class Plain(providers.HypothesisProvider):
                pass
            providers.AVAILABLE_PROVIDERS['plain'] = Plain
            return 'plain'
        except (ImportError, AttributeError):
            return None

    def generate(self, strategy, key, n, backend, end):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        @hypothesis.seed(key)
        @settings(max_examples=n, database=None, deadline=None,
                  phases=(Phase.generate, Phase.shrink), backend=backend,
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(strategy)
        def prop(case):
            if self.best is None:
                if time.time() > end:
                    self.truncated += 1
                    raise Enough()
            elif time.time() > self.shrink_end:
                raise Abort()
            if self.evaluate(case):
                raise AssertionError('case fails')

        try:
            prop()
        except Enough:
            pass
        except Abort:
            raise
        except BaseException:
            if self.best is None:
                self.finish('error', None, traceback.format_exc())
                raise Abort()
        if self.best is not None:
            raise Abort()


def replay(prop, path, out):
    mod = load(prop)
    doc = json.load(open(path, encoding='utf8'))
    case = doc['case'] if isinstance(doc, dict) and 'case' in doc else doc
    for c in (doc.get('history') or []) if isinstance(doc, dict) else []:
        run_case(mod, c, CASE_TIMEOUT['quick'])
    verdict, message, _ = run_case(mod, case, 100)
    with open(out + '.tmp', 'w') as f:
        json.dump({'verdict': verdict, 'message': message}, f)
    os.rename(out + '.tmp', out)


def main(argv):
    # bound the memory of a shard: a runaway case must not take the sandbox
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if argv[0] == '--replay':
        replay(*argv[1:4])
    else:
        prop, tier, seed, i, n, work = argv[1:7]
        Shard(prop, tier, int(seed), int(i), int(n), work).run()


if __name__ == '__main__':
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
