"""C14: correlations under missing values."""
from hx import *
from copulae.stats import corr, kendall_tau, pearson_rho, spearman_rho

a = parse(); rng = a.rng; tr = Trace(a.out)
METHODS = ["pearson", "kendall", "spearman", "tau", "rho"]; USES = ["everything", "complete", "pairwise.complete"]
SHORT = dict(pearson=pearson_rho, kendall=kendall_tau, spearman=spearman_rho)

def call(m, use, k):
    """a way of asking for the same statistic"""
    kw = {} if use == "everything" and k % 2 else dict(use=use if k % 5 else use.upper())
    if m in SHORT and k % 3 == 0:
        return lambda *x: SHORT[m](*x, **kw)
    if m == "pearson" and k % 4 == 0: return lambda *x: corr(*x, **kw)
    return lambda *x: corr(*x, method=m if k % 7 else m.upper(), **kw)

def run(name, X, k, combos):
    n, d = X.shape
    cont = ["arr", "df", "F", "int", "list", "idf"][k % 6]
    if cont == "int" and not np.isfinite(X).all(): cont = "arr"
    names = ["q", "a", "m", "b", "z", "c"][:d] if cont == "df" else [str(i + 5) for i in range(d)] if cont == "idf" else []
    def data(X):
        return dict(arr=lambda: X.copy(), df=lambda: pd.DataFrame(X, columns=names, index=range(10, 10 + len(X))), idf=lambda: pd.DataFrame(X, columns=[int(c) for c in names]),
                    F=lambda: np.asfortranarray(X), int=lambda: np.round(X).astype(int), list=lambda: X.tolist())[cont]()
    if cont == "int": X = np.round(X)
    s = tr.session(name, rows=mat(X), names=names)
    D = data(X)
    for q, (m, use) in enumerate(combos):
        s.ev("matrix", f"{m} of {cont} {n}x{d} ({use})", lambda: call(m, use, k + q)(D), method=m, use=use)
        if q % 2 == 0:
            i, j = rng.permutation(d)[:2]
            u, v = X[:, i], X[:, j]; pn = []
            if (k + q) % 3 == 0:
                pn = [["p", "r"], ["w", "w"], ["X", None], [None, None], ["g", "h"]][(k // 3 + q) % 5]
                u, v = pd.Series(u, name=pn[0]), pd.Series(v, name=pn[1])
                want = [pn[0] or "X", pn[1] or "Y"]
                pn = want if want[0] != want[1] else [want[0] + "1", want[1] + "2"]
            s.ev("pair", f"{m} of two vectors of length {n} ({use})", lambda: call(m, use, k + q + 1)(u, v), method=m, use=use, i=int(i + 1), j=int(j + 1), names=pn)
    if k % 5 == 0:
        m = combos[0][0]
        s.ev("refuse", "unknown method", lambda: corr(D, method=["distance", "", "taub", "spearmann"][k // 5 % 4]), what="method")
        s.ev("refuse", "unknown policy", lambda: corr(D, method=m, use=["drop", "complete.obs", "pairwise", ""][k // 5 % 4]), what="policy")
        s.ev("refuse", "unknown policy for two vectors", lambda: corr(X[:, 0], X[:, 1], m, "all"), what="policy")
        s.ev("refuse", "one vector", lambda: corr(X[:, 0], method=m), what="vector")
        s.ev("refuse", "vectors of different lengths", lambda: corr(X[:, 0], X[1:, 1], method=m), what="lengths")
        s.ev("refuse", "matrix and vector", lambda: corr(X, X[:, 1], method=m), what="shapes")
    if k % 4 == 0:   # the answers follow the data, not an earlier call
        Y = X.copy(); Y[rng.randint(n), rng.randint(d)] += 3.; D = data(Y)
        s.note("change", "one value changed", rows=mat(Y) if cont != "int" else mat(np.round(Y)))
        m, use = combos[-1]
        s.ev("matrix", f"{m} of changed {cont} {n}x{d} ({use})", lambda: call(m, use, k)(D), method=m, use=use)

def values(n, d, k):
    if k % 4 == 0: return np.round(rng.normal(size=(n, d)) * 2)
    if k % 4 == 1: return rng.normal(size=(n, d))
    if k % 4 == 2: return np.round(np.exp(rng.normal(size=(n, d)) * 2), 1)
    z = rng.normal(size=(n, 1)); return z + rng.normal(size=(n, d)) * .5 + 20

for k, g in enumerate(a.gen_data):
    M = np.array(g["miss"]); M = M[rng.permutation(len(M))][:, rng.permutation(M.shape[1])]
    X = values(*M.shape, k); X[M == 1] = np.nan
    if k % 3 == 0:    # the pattern on some rows of a longer table
        Z = values(9, M.shape[1], k); Z[rng.permutation(9)[:len(M)]] = X; X = Z
    run(f"missing pattern {k}", X, k, [(METHODS[(k + q) % 5], USES[q]) for q in range(3)])
for k in range(400 if a.thorough else 60):
    n, d = int(rng.choice([2, 3, 5, 10, 25, 40])), int(rng.randint(2, 7))
    X = values(n, d, k)
    if k % 3 == 2: X[rng.uniform(size=X.shape) < .15] = np.nan
    run(f"sample {k}", X, k, [(METHODS[(k + q) % 5], USES[(k + q) % 3]) for q in range(3)])
for k, n in enumerate([90, 180, 260]):      # longer tables
    X = values(n, 2 + k % 2, k + a.seed)
    if k != 1: X[rng.uniform(size=X.shape) < .05] = np.nan
    run(f"longer {n}", X, k + 1, [(METHODS[(k + q) % 5], USES[(k + q) % 3]) for q in range(3)])
RANKS = ["kendall", "spearman", "tau", "rho"]
for k in range(60 if a.thorough else 12):   # infinite values have an order and are not missing
    n, d = int(rng.choice([4, 6, 11, 20])), int(rng.randint(2, 5))
    X = values(n, d, k)
    if k % 2: X[rng.uniform(size=X.shape) < .1] = np.nan
    X[rng.uniform(size=X.shape) < .1] = np.inf; X[rng.uniform(size=X.shape) < .1] = -np.inf
    X[rng.randint(n), rng.randint(d)] = np.inf
    cont = k if k % 6 != 3 else k + 1
    run(f"infinities {k}", X, cont, [(RANKS[(k + q) % 4], USES[(k + q) % 3]) for q in range(3)])
tr.save()
