"""C25: option dictionaries."""
import inspect
import scipy.optimize, scipy.optimize._minimize
calls = []
_real = scipy.optimize.minimize
_sig = inspect.signature(_real)
def _seen(*args, **kw):
    b = dict(_sig.bind(*args, **kw).arguments)
    calls.append({k: v for k, v in b.items() if k not in ("fun", "x0", "args")})
    return _real(*args, **kw)
scipy.optimize.minimize = scipy.optimize._minimize.minimize = _seen      # the optimiser's side of the interface
from hx import *
from cops import *
from copulae import MarginalCopula
from copulae.utility.dict import merge_dict, merge_dicts

a = parse(); rng = a.rng; tr = Trace(a.out)
names = {}
def leaf(v, key=""):
    if key == "method" and isinstance(v, str): return v.lower()
    if id(v) in names: return names[id(v)]
    if isinstance(v, np.generic): v = v.item()
    if isinstance(v, (bool, str, type(None))): return repr(v)
    if isinstance(v, (int, float)): return repr(float(v))
    if isinstance(v, (list, tuple, np.ndarray)):
        return "(" + ", ".join(leaf(x) for x in v) + ")"
    return type(v).__name__
def node(x, key=""):
    if isinstance(x, dict):
        ks = sorted(x, key=str)
        return dict(t="d", k=[str(k) for k in ks], c=[node(x[k], str(k)) for k in ks])
    return dict(t="v", v=leaf(x, key))

# ---- generated sequences of dictionaries ----
class Thing:
    pass
KEEP = []
def value(i, kind):
    """the value standing for leaf i"""
    v = [i, f"s{i}", [i, i], None if i == 2 else float(i), (i,), Thing(), np.array([i, 1.5])][kind]
    if isinstance(v, (Thing, list, tuple, np.ndarray)): KEEP.append(v); names[id(v)] = f"thing {i} {len(KEEP)}"
    return v
def build(n, kind, keys):
    if n["t"] == "v": return value(n["v"], kind)
    m = n["m"] or {}
    return {keys[k]: build(c, kind, keys) for k, c in m.items()}
def merge(s, what, fn, ds):
    given = [node(d) for d in ds]
    r, e = s.run(what, lambda: fn(*ds))
    s.note("merge", what, given=given, after=[node(d) for d in ds], got=node(r) if e is None and isinstance(r, dict) else dict(t="v", v=type(r).__name__), bad="" if e is None else repr(e)[:100])
short = [g for g in a.gen_data if len(g) < 3]; long = [g for g in a.gen_data if len(g) == 3]
pick = [long[i] for i in rng.permutation(len(long))[:12000 if a.thorough else 1800]]
KEYS = [dict(a="a", b="b"), dict(a="options", b="method"), dict(a="x", b=0)]
s = None
for i, g in enumerate(short + pick):
    if i % 200 == 0: s = tr.session(f"merge {i // 200}")
    ds = [build(n, (i + j) % 7 if i % 2 else i // 2 % 7, KEYS[i // 3 % 3]) for j, n in enumerate(g)]
    w = [merge_dict, merge_dicts][i % 2] if len(ds) == 2 else merge_dicts
    merge(s, f"{w.__name__}({', '.join(str(node_ and {k: type(v).__name__ for k, v in node_.items()}) for node_ in ds)})"[:200], w, ds)
# deeper ones
def deep(lv, i):
    return {k: (deep(lv - 1, i) if lv and rng.rand() < .6 else value(i, int(rng.randint(7)))) for k in "abc" if rng.rand() < .7}
for i in range(600 if a.thorough else 60):
    if i % 60 == 0: s = tr.session(f"deep {i // 60}")
    n = int(rng.randint(1, 5))
    merge(s, f"merge_dicts of {n} nested dictionaries", merge_dicts, [deep(4, j + 1) for j in range(n)])

# ---- what reaches the optimiser ----
def callback(*_, **__): return None
names[id(callback)] = "callback"
OPT = {"Nelder-Mead": dict(maxiter=[3, 40], maxfev=[30], xatol=[1e-2, 1e-5], fatol=[1e-3], adaptive=[True], disp=[False], return_all=[True]),
       "BFGS": dict(maxiter=[2, 30], gtol=[1e-2, 1e-6], norm=[2.], eps=[1e-7], disp=[False]),
       "SLSQP": dict(maxiter=[2, 50], ftol=[1e-3, 1e-9], eps=[1e-7], iprint=[0], disp=[False]),
       "COBYLA": dict(maxiter=[10, 60], rhobeg=[.3], catol=[1e-3], disp=[False]),
       "trust-constr": dict(maxiter=[3, 20], gtol=[1e-3], xtol=[1e-4], disp=[False]),
       "Powell": dict(maxiter=[2], xtol=[1e-2]), "L-BFGS-B": dict(maxiter=[3], gtol=[1e-2]), "TNC": dict(maxfun=[20])}
TOP = {"Nelder-Mead": dict(tol=[1e-3]), "BFGS": dict(tol=[1e-3], jac=["2-point"]), "SLSQP": dict(tol=[1e-4], jac=["2-point", "3-point"]), "COBYLA": dict(tol=[1e-2]), "trust-constr": dict(jac=["2-point"]), "Powell": dict(tol=[1e-2]), "L-BFGS-B": dict(jac=["2-point"]), "TNC": dict(tol=[1e-2])}
BOUNDS = dict(clayton=[(.05, 8.)], frank=[(.1, 20.)], gumbel=[(1.1, 9.)], gaussian=[(-.9, .9)] * 3, student=[(2., 30.)] + [(-.9, .9)] * 3)
def reach(s, op, fam, cop, X, opts, **kw):
    n = len(calls); before = node(opts) if opts is not None else node({})
    _, e = s.run(f"{fam} fit", lambda: cop.fit(X, optim_options=opts, verbose=kw.pop("verbose", 0), **kw))
    got = calls[-1] if len(calls) > n else {}
    s.note(op, f"{fam}.fit({X.shape}, optim_options={opts}{', ' + str(kw) if kw else ''})"[:300], given=before, after=node(opts) if opts is not None else node({}),
           got=node(got), calls=len(calls) - n, bad="" if e is None else repr(e)[:100])
def fresh(fam): return MarginalCopula(make("gumbel", 2), "norm") if fam == "marginal" else make(fam, 3 if fam in ("gaussian", "student") else 2)
def recase(m): return [m, m.lower(), m.upper(), m.title()][rng.randint(4)]
for fam in ("clayton", "frank", "gumbel", "gaussian", "student"):
    d = 3 if fam in ("gaussian", "student") else 2
    # left to itself, the library picks a method
    own = "SLSQP" if d == 3 else "Nelder-Mead"
    for m in (*OPT, None):
        if m in ("trust-constr", "Powell", "TNC") and fam == "student" and not a.thorough: continue
        X = rng.normal(size=(int(rng.choice([15, 24, 33])), d)) + rng.normal(size=(1, 1)) * 0
        X = X + 1.2 * rng.normal(size=(len(X), 1))
        s = tr.session(f"optimiser {fam} {m}")
        M = m or own
        reach(s, "base", fam, fresh(fam), X, {"method": M} if m else None)
        for it in range(8 if a.thorough else 4):
            o = {k: v[rng.randint(len(v))] for k, v in OPT[M].items() if rng.rand() < .5}
            top = {k: v[rng.randint(len(v))] for k, v in TOP[M].items() if rng.rand() < .4}
            if rng.rand() < .3 and M not in ("BFGS", "Nelder-Mead"): top["bounds"] = list(BOUNDS[fam])
            if rng.rand() < .3: top["callback"] = callback
            if m: top["method"] = recase(m) if m in ("Nelder-Mead", "BFGS", "SLSQP", "COBYLA", "trust-constr") else m
            if o or rng.rand() < .3: top["options"] = o
            cop = fresh(fam)
            if it == 2 and fam != "student": cop.fit(X, verbose=0, method="itau")
            reach(s, "reach", fam, cop, X, top, **({"scale": 2.} if it == 1 else {}), **({"ties": "max"} if it == 3 else {}))
tr.save()
