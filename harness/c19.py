"""C19: mixture copulas - answers, fits, expectation-maximisation."""
from hx import *
from copulae import GaussianMixtureCopula
from copulae.mixtures.gmc.parameter import GMCParam

a = parse(); rng = a.rng; tr = Trace(a.out)
NONE = dict(w=[], m=[], s=[])
def mix(p):
    return NONE if p is None else dict(w=fl(p.prob), m=[fl(x) for x in p.means], s=[[fl(r) for r in S] for S in p.covs])
def cov(d, lo=.4, hi=1.3):
    A = rng.normal(size=(d, d)); S = A @ A.T + .5 * np.eye(d); s = np.sqrt(np.diag(S)); t = rng.uniform(lo, hi, d)
    return S / np.outer(s, s) * np.outer(t, t)
def param(m, d, spread=1.6):
    w = rng.dirichlet([6.] * m)
    return GMCParam(m, d, w, rng.uniform(-spread, spread, size=(m, d)), np.array([cov(d) for _ in range(m)]))
def data(m, d, n, tied=False):
    p = param(m, d, 1.8); k = np.r_[np.arange(m), np.arange(m), rng.choice(m, size=n - 2 * m, p=p.prob)]
    X = np.array([rng.multivariate_normal(p.means[i], p.covs[i]) for i in k])
    return np.round(X, 1) if tied else X
def rows(X): return mat(np.asarray(X))
def form(X):
    return [X, np.asfortranarray(X), pd.DataFrame(X, columns=[f"v{i}" for i in range(X.shape[1])]), pd.DataFrame(X, index=rng.permutation(len(X)))][rng.randint(4)]
class Fail(Exception): pass
def summary(c):
    s = c.summary("fit"); return s, getattr(s, "best_params", None)

def fit(s, cop, what, key, X, ties="average", kind="fit", x0=None, descent=False, **kw):
    _, e = s.run(key, lambda: cop.fit(X, x0, ties=ties, verbose=0, **kw))
    rep, ll = None, float("nan")
    if e is None:
        q, e2 = s.run(key + " summary", lambda: summary(cop))
        if q: rep = q[1]; ll = q[0].setup.get("Fn. Value", ll) if descent else ll
    R = rows(X) if kind == "kmeans" or descent else []
    s.note(kind, key, res=enc(e) if e is not None else dict(EMPTY, k="ok"), what=what, now=mix(cop.params), rep=mix(rep), m=int(cop.clusters), d=int(cop.dim),
           descent=bool(descent), rows=R, ties=ties, x0=mix(x0 if isinstance(x0, GMCParam) else None), ll=f(ll))
    return e is None

def ask(s, cop, op, d):
    if op == "random":
        n = int(rng.choice([1, 2, 5, 40]))
        s.ev("random", f"random({n})", lambda: np.asarray(cop.random(n, seed=int(rng.randint(1 << 20)))).reshape(-1, d) if n == 1 else cop.random(n), n=n)
        return
    n = int(rng.choice([1, 2, 4, 6])); p = cop.params; log = bool(rng.randint(2))
    c = np.zeros(d) if p is None else p.means[rng.randint(len(p.means))]
    X = c + rng.normal(size=(n, d)) * rng.choice([.3, 1., 2.5])
    if rng.randint(3) == 0: X[rng.randint(n)] = p.means.mean(0) if p is not None else 0
    x = [X, X.tolist(), pd.DataFrame(X), np.asfortranarray(X)][rng.randint(4)] if n > 1 else [X[0], X[0].tolist(), X, pd.Series(X[0])][rng.randint(4)]
    s.ev(op, f"{op}({type(x).__name__} of {n} points, log={log})", lambda: getattr(cop, op)(x, log=log) if log or rng.randint(2) else getattr(cop, op)(x), at=rows(X), log=log,
         conv=lambda v: (lambda r: dict(r, v=r["v"]))(enc(v)))

def life(name, m, d, hist):
    cop = GaussianMixtureCopula(m, d); s = tr.session(name, g=NONE)
    for op in hist:
        n = int(rng.randint(10 * m, 14 * m + 6)); X = data(m, d, n, rng.randint(4) == 0); F = form(X)
        if op in ("pdf", "cdf", "random"): ask(s, cop, op, d); continue
        if op in ("assign", "forget"):
            p = param(m, d) if op == "assign" else None
            _, e = s.run(op, lambda: setattr(cop, "params", p))
            s.note("assign", op, res=enc(e) if e is not None else dict(EMPTY, k="ok"), now=mix(p)); continue
        if op == "fit_pem": fit(s, cop, "good", f"fit(pem) {type(F).__name__}", F, method="pem", max_iter=8, criteria=["GMCM", "GMM", "Li"][rng.randint(3)])
        elif op == "fit_kmeans": fit(s, cop, "good", f"fit(kmeans) {type(F).__name__}", F, kind="kmeans", method="kmeans")
        elif op == "fit_sgd": fit(s, cop, "good", "fit(sgd)", F, method="sgd", descent=True, x0=param(m, d, 1.) if rng.randint(2) else None, max_iter=15)
        elif op == "fit_from":
            p = param(m, d, 1.); x0 = [p, p.to_vector(), dict(prob=p.prob, means=p.means, covs=p.covs)][rng.randint(3)]
            fit(s, cop, "good", f"fit(pem, x0={type(x0).__name__})", F, method="pem", max_iter=5, x0=x0)
        elif op == "bad_method": fit(s, cop, "method", "fit(method=mle)", F, method=["mle", "em", ""][rng.randint(3)])
        elif op == "bad_criteria": fit(s, cop, "criteria", "fit(criteria=?)", F, method="pem", criteria=["aic", "", "GMC"][rng.randint(3)], max_iter=3)
        elif op == "bad_start":
            x0 = [lambda: param(m + 1, d), lambda: param(m, d + 1), lambda: param(m, d).to_vector()[:-1], lambda: param(m, d + 1).to_vector()][rng.randint(4)]()
            fit(s, cop, "start", f"fit(x0={type(x0).__name__} of the wrong size)", F, method=["pem", "sgd", "kmeans"][rng.randint(3)], x0=x0, max_iter=3)
        elif op == "bad_data":
            fit(s, cop, "data", "fit(data of another dimension)", data(m, d + 1, n) if rng.randint(2) or d == 2 else data(m, d - 1, n), method=["pem", "sgd", "kmeans"][rng.randint(3)], x0=param(m, d) if rng.randint(2) else None, max_iter=3)

def em(name, m, d, n, K, tied=False, ties="average"):
    s = tr.session(name, g=NONE); cop = GaussianMixtureCopula(m, d)
    X = data(m, d, n, tied); x0 = param(m, d, 1.2)
    s.note("data", "data", rows=rows(X), ties=ties)
    def go(key, **kw):
        _, e = s.run(key, lambda: cop.fit(X, x0, method="pem", verbose=0, ties=ties, **kw))
        r = dict(res=enc(e) if e is not None else dict(EMPTY, k="ok"), now=mix(cop.params if e is None else None), rep=NONE, ll=f(float("nan")), conv=False, x0=mix(x0))
        if e is None:
            q, _ = summary(cop), 0
            r.update(rep=mix(q[1]), ll=f(q[0].setup.get("Log. Likelihood", float("nan"))), conv=bool(q[0].has_converged))
        return r, e
    for k in range(K + 1):
        key = f"{k} steps of expectation-maximisation"
        r, e = go(key, criteria="GMM", eps=0., max_iter=k)
        if e is not None and type(e).__name__ == "FitException": break   # a component vanished
        s.note("iterate", key, **r)
        if e is not None: return
    if e is not None: return
    for crit in ("GMCM", "GMM", "Li"):
        for eps, limit in ((.5, K), (rng.choice([.02, .1, 2.]), K), (1e-9, 1 + rng.randint(K)), (.5, 50)):
            r, e = go("em", criteria=crit if rng.randint(3) else crit.lower(), eps=eps, max_iter=int(limit))
            if e is not None and limit > K: continue
            s.note("em", f"fit(criteria={crit}, eps={eps}, max_iter={limit})", crit=crit.upper(), eps=f(eps), limit=int(limit), **r)

H = [g["hist"] for g in a.gen_data if g["kind"] == "life"]
n = 260 if a.thorough else 56
H = [H[i] for i in rng.permutation(len(H))[:n]]
for k, h in enumerate(H):
    m, d = [(2, 2), (3, 2), (2, 3), (1, 2), (2, 2)][k % 5]
    life(f"{m}x{d} {' '.join(h)}", m, d, h)
CASES = [(2, 2, 30, False, "average"), (3, 2, 36, False, "min"), (2, 3, 28, False, "average"), (1, 2, 20, False, "max"), (2, 2, 26, True, "average"), (2, 2, 24, True, ["min", "max", "dense"][rng.randint(3)])]
for m, d, n, t, ties in CASES * (6 if a.thorough else 1):
    em(f"em {m}x{d} n={n} tied={t} {ties}", m, d, n, 9 if a.thorough else 6, t, ties)

# the bookkeeping of the loop, driven by the likelihood histories of the design model
try:
    from copulae.mixtures.gmc.estimators.em import LogLik
except ImportError:
    LogLik = None
if LogLik is not None:
    s = tr.session("loop", g=NONE); P = [param(2, 2) for _ in range(8)]
    for g in [g for g in a.gen_data if g["kind"] == "loop"]:
        try:
            L = LogLik(dict(GMCM="GMCM", GMM="GMM", LI="Li")[g["crit"]], .5); claims = False
            for k, (x, y) in enumerate(zip(g["gmm"], g["gmcm"])):
                L.set(gmm=float(x), gmcm=float(y), param=P[k]); claims = bool(L.has_converged)
            best = next(i + 1 for i in range(8) if L.best_param is P[i]); ll = int(L.best_log_lik)
        except (TypeError, AttributeError, StopIteration): break   # a helper of the library, not an interface it promises
        s.note("loop", f"loop {g}", crit=g["crit"], gmm=g["gmm"], gmcm=g["gmcm"], best=best, ll=ll, claims=claims, converged=bool(g["converged"]))
tr.save()
