"""Shared by the property modules"""
import contextlib
import io
import os
import shutil
import tempfile


class Violation(AssertionError):
    """The code under test broke the property on this case"""


class HarnessError(Exception):
    """The check itself failed (not a verdict on the code)"""


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


class Info(object):
    """What a case exercised: classes for the distribution, non-triviality"""
    def __init__(self):
        self.nontrivial = False
        self.classes = set()
        self.counters = {}

    def cls(self, name, cond=True):
        if cond:
            self.classes.add(name)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)


@contextlib.contextmanager
def workdir():
    """Run in a fresh scratch directory, removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='case-')
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def expect_raises(fn, types, what):
    """fn must refuse with one of the exception types"""
    try:
        with quiet():
            fn()
    except types:
        return
    except (KeyboardInterrupt, MemoryError):
        raise
    except UnicodeDecodeError as e:
        # the h5py installed here sometimes fails to decode the message of
        # the error it was about to raise
        tb, last = e.__traceback__, ''
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if 'h5py' in last:
            return
        raise Violation('%s: refused with %r instead of %s' % (
            what, e, types))
    except BaseException as e:
        raise Violation('%s: refused with %r instead of %s' % (
            what, e, types))
    raise Violation('%s: was accepted' % what)
