"""Recording helpers shared by the replay harnesses.  Records what the real code does; judges nothing."""
import argparse, io, json, os, signal, sys, warnings
import contextlib
import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

def parse():
    p = argparse.ArgumentParser()
    p.add_argument("--gen"); p.add_argument("--out"); p.add_argument("--seed", type=int, default=1); p.add_argument("--tier", default="quick")
    a = p.parse_args()
    a.gen_data = json.load(open(a.gen)) if a.gen else []
    a.thorough = a.tier == "thorough"
    a.rng = np.random.RandomState(a.seed * 7919 + 13)
    np.random.seed(a.seed * 7919 + 14)      # the library draws from the global generator in places (k-means, bootstraps)
    return a

def f(x):
    """one real number"""
    return fl(x)[0]

def fl(x):
    """all numbers of an array, row-major"""
    a = np.ascontiguousarray(np.asarray(x, dtype="f8"))
    a = np.where(np.isnan(a), np.nan, a)
    return np.ascontiguousarray(a.ravel().astype(">f8")).view(">i4").reshape(-1, 2).tolist()

def mat(x):
    """matrix as a sequence of rows"""
    x = np.asarray(x, float)
    return [fl(r) for r in x] if x.ndim == 2 else fl(x)

EMPTY = dict(k="none", shape=[], v=[], cols=[], idx=[], e="", t="")

def enc(x):
    o = dict(EMPTY)
    o["t"] = type(x).__name__
    if x is None:
        return o
    if isinstance(x, BaseException):
        o.update(k="exc", e=type(x).__name__, idx=[c.__name__ for c in type(x).__mro__])
        return o
    if isinstance(x, str):
        o.update(k="str", e=x)
        return o
    if isinstance(x, (bool, np.bool_)):
        o.update(k="bool", v=fl([float(x)]))
        return o
    try:
        if isinstance(x, pd.DataFrame):
            o.update(k="df", shape=list(x.shape), v=fl(x.to_numpy(dtype=float)), cols=[str(c) for c in x.columns], idx=[str(i) for i in x.index])
        elif isinstance(x, pd.Series):
            o.update(k="series", shape=list(x.shape), v=fl(x.to_numpy(dtype=float)), idx=[str(i) for i in x.index])
        elif isinstance(x, np.ndarray):
            if x.dtype.kind not in "fiub":
                raise TypeError
            o.update(k="arr" if x.ndim else "num", shape=list(x.shape), v=fl(x))
        elif isinstance(x, (int, float, np.integer, np.floating)):
            o.update(k="num", v=fl([float(x)]))
        elif isinstance(x, (list, tuple)):
            a = np.asarray(x, float)
            o.update(k="seq", shape=list(a.shape), v=fl(a))
        else:
            o.update(k="other")
    except (TypeError, ValueError, OverflowError):
        o.update(k="other", shape=[], v=[], cols=[], idx=[])
    return o

class CallTimeout(Exception):
    pass

def _alarm(*_):
    raise CallTimeout()

class Trace:
    def __init__(self, out):
        self.out, self.sessions = out, []
        self.fd = os.open(out + ".cur", os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        signal.signal(signal.SIGALRM, _alarm)

    def session(self, name="", **init):
        s = dict(name=name, init=init, events=[])
        self.sessions.append(s)
        return Session(self, s)

    def save(self):
        json.dump(self.sessions, open(self.out, "w"))
        os.close(self.fd)

class Session:
    def __init__(self, tr, s):
        self.tr, self.s = tr, s

    def mark(self, key):
        os.pwrite(self.tr.fd, key[:400].encode().ljust(400), 0)

    def run(self, key, fn, limit=60):
        """calls fn; returns (value or None, exception or None)"""
        self.mark(key)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = fn()
            return v, None
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            return None, e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def ev(self, op, key, fn, conv=enc, **args):
        """records one call: op, key (readable call), the arguments, and the observation of the result"""
        v, e = self.run(key, fn)
        if e is not None:
            res = enc(e)
        else:
            try:
                res = conv(v)
            except Exception as ce:     # a result of an unexpected form is an observation, not a harness failure
                res = dict(EMPTY, k="other", t=type(v).__name__, e="unexpected result: " + type(ce).__name__)
        self.s["events"].append(dict(op=op, key=key, res=res, **args))
        return v

    def note(self, op, key, **args):
        self.s["events"].append(dict(op=op, key=key, **args))
