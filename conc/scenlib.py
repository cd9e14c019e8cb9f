"""Helpers for whole-system scenarios on the real code."""
import io
import os
import sys
import shutil
import tempfile
import random
import contextlib
import traceback
import numpy as np


class Sc:
    """scenario context"""

    def __init__(self, seed):
        self.seed = seed
        self.r = random.Random(seed)
        self.np = np.random.RandomState(seed % (2 ** 31))
        self.failed = []
        self.checked = {}
        self.desc = {}
        self.tmp = None

    def check(self, name, ok, detail=''):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not ok:
            self.failed.append((name, str(detail)[:1200]))
        return bool(ok)

    def close(self, name, a, b, rtol=1e-7, atol=1e-9, detail=''):
        self.checked[name] = self.checked.get(name, 0) + 1
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            ok = a_.shape == b_.shape and np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
        except Exception as e:
            ok = False
            detail = '%s %s' % (detail, e)
        if not ok:
            self.failed.append((name, ('%s got %r expected %r' % (detail, a, b))[:1200]))
        return ok

    def same(self, name, a, b, detail=''):
        self.checked[name] = self.checked.get(name, 0) + 1
        try:
            ok = np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f')
        except Exception:
            ok = a == b
        if not ok:
            self.failed.append((name, ('%s got %r expected %r' % (detail, a, b))[:1200]))
        return ok

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='vscen_')
        return self.tmp

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def raises(self, fn, *exc):
        try:
            with self.quiet():
                fn()
        except exc or (BaseException,) as e:
            return e
        return None


def run_scenario(fn, seed):
    s = Sc(seed)
    orig = np.random.seed
    orig(seed % (2 ** 31))
    own = random.Random(seed + 77)
    pid = os.getpid()

    def reseed(*a, **k):
        # seeding from the operating system is replaced by a reproducible arbitrary seed
        v = list(a) + list(k.values())
        return orig(own.getrandbits(31)) if os.getpid() == pid and (not v or v[0] is None) else orig(*a, **k)
    np.random.seed = reseed
    cwd = os.getcwd()
    try:
        with s.quiet(), np.errstate(all='ignore'):
            fn(s)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        s.failed.append(('no-unexpected-exception', '%s: %s\n%s' % (type(e).__name__, e, tb[-1500:])))
    finally:
        np.random.seed = orig
        os.chdir(cwd)
        if s.tmp:
            shutil.rmtree(s.tmp, ignore_errors=True)
    return dict(failed=s.failed, checked=s.checked, desc=repr(s.desc), key=s.desc.get('key') if isinstance(s.desc, dict) else None)
