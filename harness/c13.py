"""C13: empirical copulas."""
from hx import *
from copulae import EmpiricalCopula
from copulae.empirical.distribution import emp_dist_func

a = parse(); rng = a.rng; tr = Trace(a.out)
TIES = ["average", "min", "max", "dense", "ordinal"]; SM = ["none", "beta", "checkerboard"]; OFF = [0, 1, .5, 0]
OUT = [[1.1, .5], [.5, -.01], [-.2, .4], [2., 2.]]

def run(name, X, k, at, cont=None):
    n, d = X.shape
    cont = cont or ["arr", "df", "list", "F", "int"][k % 5]
    names = [f"{c}{i // 5 or ''}" for i, c in enumerate("qambz" * 3)][:d] if cont == "df" else []
    data = dict(arr=X.copy(), df=pd.DataFrame(X, columns=names or None), list=X.tolist(), F=np.asfortranarray(X), int=X.astype(int) if np.all(X == np.round(X)) else X.copy())[cont]
    ties, sm, off = TIES[k % 5], SM[k % 3], OFF[(k // 3) % 4]
    s = tr.session(name, rows=mat(X), ties=ties, sm=sm, off=f(off), names=names)
    kw = dict(smoothing=sm, ties=ties, offset=off)
    if sm == "none" and k % 2: kw["smoothing"] = None
    if off == 0: kw.pop("offset")
    if ties == "average": kw.pop("ties")
    cop, e = s.run("construct", lambda: EmpiricalCopula(data, **kw))
    tag = f"EmpiricalCopula({cont} {n}x{d}, {sm}, {ties}, {off})"
    if e is not None:
        s.ev("cdf", tag, lambda: (_ for _ in ()).throw(e), at=[], log=False); return
    def look(): s.note("look", tag + " read", smoothing=str(cop.smoothing), tie=str(cop.ties), data=mat(np.asarray(cop.data, float)))
    def evaluate(tag):
        P = np.array(at, float)
        s.ev("cdf", tag + ".cdf", lambda: cop.cdf(P), at=[fl(p) for p in at], log=False)
        if k % 3 == 1: s.ev("cdf", tag + ".cdf log", lambda: cop.cdf(P, log=True), at=[fl(p) for p in at], log=True)
        if cop.smoothing == "beta" or k % 7 == 0:
            s.ev("pdf", tag + ".pdf", lambda: cop.pdf(P), at=[fl(p) for p in at], log=False)
            Q = P[((P > 0) & (P < 1)).all(1)]
            s.ev("pdf", tag + ".pdf log", lambda: cop.pdf(Q, log=True), at=[fl(p) for p in Q], log=True)
    evaluate(tag); look()
    n_dr = int(rng.randint(1, 6))
    s.ev("draw", tag + f".random({n_dr})", lambda: cop.random(n_dr, seed=[None, 0, 3][k % 3]), n=n_dr)
    # settings changed afterwards are followed
    sm2, t2 = SM[(k + 1 + k // 3 % 2) % 3], TIES[(k + 2) % 5]
    s.ev("smooth", tag + f".smoothing = {sm2}", lambda: setattr(cop, "smoothing", sm2), sm=sm2)
    if k % 2: s.ev("ties", tag + f".ties = {t2}", lambda: setattr(cop, "ties", t2), ties=t2)
    s.ev("refuse", tag + ".smoothing = 'spline'", lambda: setattr(cop, "smoothing", "spline"), what="smoothing")
    evaluate(tag + f" then {sm2} {t2 if k % 2 else ''}"); look()
    if d == 2:
        s.ev("refuse", tag + f".cdf({OUT[k % 4]})", lambda: cop.cdf(OUT[k % 4]), what="outside")
        s.ev("refuse", tag + ".cdf(one point outside)", lambda: cop.cdf(np.array([[.5, .5], OUT[(k + 1) % 4], [.1, .2]])), what="outside")
    s.ev("refuse", "EmpiricalCopula(smoothing='gauss')", lambda: EmpiricalCopula(data, smoothing="gauss"), what="smoothing")
    s.ev("cdf", tag + f".fit(other data)", lambda: cop.fit(rng.uniform(size=(5, d))) and cop.cdf(np.array(at, float)), at=[fl(p) for p in at], log=False)
    # levels back to margins
    lev = rng.uniform(size=(6, d)); lev[0] = 0.; lev[1] = 1.; lev[2] = rng.randint(0, n + 1, d) / n
    L = pd.DataFrame(lev, columns=[f"c{i}" for i in range(d)]) if k % 4 == 3 else lev
    s.ev("marg", f"to_marginals({'table' if k % 4 == 3 else 'array'}, {cont} {n}x{d})", lambda: EmpiricalCopula.to_marginals(L, data if cont != "list" else X), at=[fl(p) for p in lev], orig=mat(X), names=names)
    # the distribution function behind it
    U = rng.uniform(size=(n, d)) if k % 2 else np.array([[rng.randint(1, n + 1) / (n + 1) for _ in range(d)] for _ in range(n)])

grid = [[x, y] for x in (0, .25, .3, .5, .75, 1) for y in (0, .25, .4, .5, .75, 1)]
for k, g in enumerate(a.gen_data):
    X = np.array(g["rows"], float) * [1., -2.][k % 2] + (k % 3)
    ix = rng.permutation(len(X)); X = X[ix]
    sel = [grid[i] for i in sorted(rng.choice(len(grid), 12, replace=False))] if k % 4 else grid
    run(f"pattern {k}", X, k + a.seed, sel)
for k in range(400 if a.thorough else 60):
    d = [2, 3, 2, 4, 5][k % 5]; n = int(rng.choice([2, 3, 5, 9, 16, 25, 40]))
    X = rng.normal(size=(n, d))
    if k % 3 == 1: X = np.round(X)
    if k % 3 == 2: X = np.round(X, 1)
    at = rng.uniform(size=(7, d)); at[0] = 1.; at[1, 0] = 0.; at[2, -1] = 1.
    at[3:5] = rng.randint(0, n + 2, (2, d)) / (n + 1)
    run(f"sample {k}", X, k * 7 + a.seed, at.tolist())
for k, d in enumerate([8, 10, 12]):      # many columns
    X = rng.normal(size=(12, d)) + 2 * rng.normal(size=(12, 1))
    at = 1 - rng.uniform(size=(8, d)) ** 2 / 2; at[0] = 1.; at[1:4] = 1.
    for q in range(1, 4): at[q, -q] = .5
    run(f"wide {d}", X, k * 11 + a.seed, at.tolist())
for k, n in enumerate([70, 210]):      # longer data: the arrangement of cases by k keeps off the dense rule
    X = rng.normal(size=(n, 2)); X = X if k % 2 else np.round(X, 1) + 0.
    k2 = next(q for q in range(k * 5 + a.seed, 10 ** 6) if TIES[q % 5] != "dense" and TIES[(q + 2) % 5] != "dense")
    at = rng.uniform(size=(8, 2)); at[0] = 1.; at[3:5] = rng.randint(0, n + 2, (2, 2)) / (n + 1)
    run(f"longer {n}", X, k2, at.tolist())
tr.save()
