"""Runs concrete cases against the real code: replays counterexamples, cross-checks the
engine against CPython, and stands in (bounded) where no contract decides."""
import sys
import os
import json
import time
import traceback
import warnings

warnings.simplefilter("ignore")
import numpy as np

CASES = []


class Skip(Exception):
    pass


def case(name, n=12, thorough=None):
    def dec(f):
        CASES.append((name, f, n, thorough or 8 * n))
        return f
    return dec


def close(a, b, tol=1e-8, what="", floor=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s instead of %s" % (what, a.shape, b.shape)
    if a.size:
        assert np.all(np.isfinite(a)), "%s: not finite: %s" % (what, a)
        err = np.abs(a - b).max()
        ref = max(1e-300, np.abs(b).max(), np.abs(a).max())
        assert err <= tol * max(ref, floor), "%s: off by %.3g (scale %.3g): got %s expected %s" % (
            what, err, ref, str(a)[:300], str(b)[:300])


def same(a, b, what=""):
    assert a == b, "%s: got %r expected %r" % (what, a, b)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return
    except Exception as e:
        assert False, "raised %r instead of %s" % (e, exc.__name__)
    assert False, "did not raise %s" % exc.__name__


def runcase(name, f, seed):
    rng = np.random.RandomState(seed & 0x7fffffff)
    try:
        f(rng)
        return None
    except Skip:
        return None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])
        return "%s: %s [%s]" % (type(e).__name__, str(e)[:1500], " < ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[::-1][:4]))


def main():
    mode = sys.argv[1]
    if mode == "run":
        seed, tier, budget = int(sys.argv[2]), sys.argv[3], float(sys.argv[4])
        t0 = time.time()
        ran, fails, cut = {}, [], False
        for name, f, n, th in CASES:
            cnt = n if tier == "quick" else th
            for k in range(cnt):
                if time.time() - t0 > budget:
                    cut = True
                    break
                s = (seed * 1000003 + k * 7919 + sum(map(ord, name))) % (2 ** 31)
                ran[name] = ran.get(name, 0) + 1
                e = runcase(name, f, s)
                if e:
                    fails.append(dict(case=name, seed=s, error=e))
                    break
        print("BATTERY " + json.dumps(dict(ran=ran, fails=fails, cut=cut, wall=time.time() - t0)))
    else:
        name, s = sys.argv[2], int(sys.argv[3])
        for nm, f, n, th in CASES:
            if nm == name:
                e = runcase(nm, f, s)
                print("BATTERY " + json.dumps(dict(ran={nm: 1}, fails=[dict(case=nm, seed=s, error=e)] if e else [])))
