"""C21: triangle indices, matrix builders, definiteness and repairs."""
from hx import *
from copulae.core.misc import tri_indices, create_cov_matrix
from copulae.core.linalg import is_psd, is_symmetric, near_psd, cov2corr, corr2cov

a = parse(); rng = a.rng; tr = Trace(a.out); R = 10 if a.thorough else 2
MT = dict(EMPTY, k="none")
def ints(v): return [int(i) for i in v]
def shown(M): return np.asarray(M).tolist()
def verdict(v, e):
    """1 yes, 0 no, -1 anything else"""
    return -1 if e is not None or not isinstance(v, (bool, np.bool_)) else int(v)
def layout(M, n):
    """the same matrix as a caller may hold it"""
    M = np.array(M)
    return [lambda: M, lambda: np.asfortranarray(M), lambda: M.astype(float), lambda: pd.DataFrame(M), lambda: np.kron(M, np.ones((2, 1)))[::2]][n % 5]()

s = tr.session("triangles")
for n in list(range(0, 8)) + [13, 40]:
    for m in range(0, min(n, 6) + 1):
        for side in ("lower", "upper", "both") if (n + m) % 2 else ("Lower", "UPPER", "both"):
            v, e = s.run("tri_indices", lambda: tri_indices(n, m, side))
            rows, cols = ([], []) if e else (ints(v[0]), ints(v[1]))
            M = np.arange(n * n).reshape(n, n)
            x, e2 = s.run("index", lambda: M[tri_indices(n, m, side)])
            s.note("tri", f"tri_indices({n}, {m}, {side!r})", n=n, m=m, side=side.lower(), rows=rows, cols=cols, read=[-1] if e2 else ints(x), err=enc(e or e2)["e"])
s.ev("refuse", "tri_indices(3, 1, 'left')", lambda: tri_indices(3, 1, "left"))
for n in list(range(0, 30)) + [45, 105, 190] + ([780, 1225] if a.thorough else []):
    v = np.round(rng.uniform(-1, 1, n), 3)
    ok = int(round((1 + (1 + 8 * n) ** .5) / 2)); ok = ok * (ok - 1) == 2 * n
    arg = [v, v.tolist(), tuple(v), pd.Series(v), v[::-1][::-1]][n % 5]
    s.ev("build" if ok else "refuse", f"create_cov_matrix({n} values)", lambda: create_cov_matrix(arg), vec=fl(v))

s = tr.session("scales")
for t in range(60 * R):
    n = int(rng.randint(1, 7)); A = rng.normal(size=(n, n + int(rng.randint(0, 2)))); C = A @ A.T; C = (C + C.T) / 2
    sd = 10 ** rng.uniform(-3, 3, n); D = np.sqrt(np.diag(C)); C = C / np.outer(D, D) * np.outer(sd, sd)
    if t % 4 == 0:
        C = np.diag(rng.randint(1, 9, n)).astype(int); C[0, :] += np.arange(n); C[1:, 0] = C[0, 1:]
    X = layout(C, t); before = np.array(X)
    v, e = s.run("cov2corr", lambda: (cov2corr(X), *cov2corr(X, True)))
    good = e is None and all(np.shape(x) == sh for x, sh in zip(v, [(n, n), (n, n), (n,)]))
    s.note("tocorr", f"cov2corr({shown(C)})", cov=mat(C), corr=mat(v[0]) if good else [], corr2=mat(v[1]) if good else [], std=fl(v[2]) if good else [], same=bool(np.array_equal(before, np.asarray(X))), err=enc(e)["e"])
    if good:
        K, sd2 = np.array(v[1]), np.array(v[2])
        sd2, KK = [sd2, sd2.tolist(), sd2.reshape(1, -1)][t % 3], [K, K.tolist()][t % 2]
        v2, e = s.run("corr2cov", lambda: corr2cov(KK, sd2)); ok = e is None and np.shape(v2) == (n, n)
        v3, e3 = s.run("cov2corr", lambda: cov2corr(v2)) if ok else (None, e); ok3 = e3 is None and np.shape(v3) == (n, n)
        s.note("tocov", f"corr2cov({shown(K)}, {shown(sd2)})", corr=mat(K), std=fl(sd2), cov=mat(v2) if ok else [], back=mat(v3) if ok3 else [], orig=mat(C), err=enc(e)["e"])

s = tr.session("small matrices")
G = [g for i, g in enumerate(a.gen_data)]
B = 40
for i in range(0, len(G), B):
    chunk, psd, pd_, tl, sym = G[i:i + B], [], [], [], []
    for j, g in enumerate(chunk):
        X = layout(g, i + j) if (i + j) % 7 else g
        psd.append(verdict(*s.run("is_psd", lambda: is_psd(X)))); pd_.append(verdict(*s.run("is_psd strict", lambda: is_psd(X, strict=True))))
        tl.append([verdict(*s.run("is_psd tol", lambda: is_psd(X, st, .5))) for st in (False, True)])
        sym.append(verdict(*s.run("is_symmetric", lambda: is_symmetric(np.array(g)))))
    s.note("psd", f"is_psd of {len(chunk)} matrices from {chunk[0]}", ms=chunk, psd=psd, strict=pd_, tol=tl, sym=sym)
# one entry changed on one side of the diagonal
sel = [G[i] for i in rng.permutation(len(G))[:60 * R] if len(G[i]) > 1]
for g in sel:
    n = len(g); i, j = rng.choice(n, 2, replace=False); h = [list(r) for r in g]; h[i][j] += int(rng.choice([-2, -1, 1, 2]))
    X = np.array(h) * 1.
    vs = [verdict(*s.run("is_psd", lambda: is_psd(X))), verdict(*s.run("is_psd strict", lambda: is_psd(X, True))), verdict(*s.run("is_symmetric", lambda: is_symmetric(X)))]
    s.note("asym", f"is_psd({h})", m=h, got=vs)
    for meth in ("clipped", "nearest"): s.ev("refuse", f"near_psd({h}, {meth})", lambda: near_psd([h, X][n % 2], meth))
for h in ([[1, 2, 3], [2, 1, 3]], [1., 2.], [[[1.]]], [[1.], [2.]]):
    X = np.array(h); s.note("asym", f"is_psd({h})", m=[], got=[verdict(*s.run("is_psd", lambda: is_psd(X))), verdict(*s.run("is_psd", lambda: is_psd(X, True))), verdict(*s.run("is_symmetric", lambda: is_symmetric(X)))])
    s.ev("refuse", f"near_psd({h})", lambda: near_psd(X))
s = tr.session("numbers")
for x in (2, .5, 1, 0, 0., -1, -.3): s.note("psd", f"is_psd({x})", ms=[[[int(x * 10)]]], psd=[verdict(*s.run("is_psd", lambda: is_psd(x)))], strict=[verdict(*s.run("is_psd", lambda: is_psd(x, True)))], tol=[], sym=[])

s = tr.session("real matrices")
def correlation(n):
    k = rng.randint(4)
    if k == 0: A = rng.normal(size=(n, n + 2)); A = A @ A.T
    elif k == 1: A = rng.normal(size=(n, max(1, n - 1))); A = A @ A.T + 1e-9 * np.eye(n)
    else:
        A = rng.uniform(-1, 1, (n, n)); A = (A + A.T) / 2
        if k == 3: A = np.round(A * 2) / 2
        np.fill_diagonal(A, 1)
    D = np.sqrt(np.diag(A)); A = A / np.outer(D, D); A = (A + A.T) / 2; np.fill_diagonal(A, 1); return A
def scaled(A, t):
    n = len(A); sd = [np.ones(n), 10 ** rng.uniform(-2, 2, n), np.full(n, 3.)][t % 3]; M = A * np.outer(sd, sd); return (M + M.T) / 2
for t in range(120 * R):
    M = scaled(correlation(int(rng.randint(1, 8))), t); X = layout(M, t); tol = float([1e-12, 1e-12, 1e-6, .01, 1.][rng.randint(5)])
    got = [verdict(*s.run("is_psd", lambda: is_psd(X, st, tol))) for st in (False, True)]
    s.note("rpsd", f"is_psd({shown(M)}, tol={tol})", m=mat(M), tol=f(tol), got=got)
def near(M, arg, meth, thr, kw):
    before = np.array(arg)
    v, e = s.run("near_psd", lambda: near_psd(arg, *kw[0], **kw[1]))
    ok = e is None and np.shape(v) == M.shape
    s.note("near", f"near_psd({shown(M)}, {meth}, {thr})", m=mat(M), meth=meth, thr=f(thr), x=mat(v) if ok else [], same=bool(np.array_equal(before, np.asarray(arg))), err="" if e is None else enc(e)["e"])
for t in range(150 * R):
    n = int(rng.randint(1, 6)) if t % 5 else int(rng.randint(6, 9))
    M = scaled(correlation(n), t); arg = [M, M.tolist(), pd.DataFrame(M), np.asfortranarray(M)][t % 4]
    meth, thr, kw = [("clipped", 1e-15, ((), {})), ("nearest", 1e-15, (("nearest",), {})), ("clipped", .01, ((), dict(threshold=.01))), ("nearest", 1e-15, ((), dict(method="nearest", n_fact=200))), ("clipped", 1e-15, (("clipped",), {}))][rng.randint(5)]
    near(M, arg, meth, thr, kw)
pos = [g for g in G if all(g[i][i] > 0 for i in range(len(g)))]
for i in rng.permutation(len(pos))[:200 * R]:
    M = np.array(pos[i]); meth = ["clipped", "nearest"][rng.randint(2)]; near(M, [M, M.tolist(), M * 1.][rng.randint(3)], meth, 1e-15, ((meth,), {}))
tr.save()
