"""C01: pseudo-observations and ranks."""
from hx import *
from copulae import pseudo_obs, GaussianCopula, ClaytonCopula
from copulae.core import rank_data

a = parse(); rng = a.rng; tr = Trace(a.out)
RULES = ["average", "min", "max", "dense", "ordinal"]

def levels(n):
    """n strictly increasing reals of mixed sign and magnitude"""
    kind = rng.randint(4)
    if kind == 0: return np.arange(1, n + 1, dtype=float)
    if kind == 1: return np.sort(rng.normal(0, 10 ** rng.uniform(-6, 6), n))
    if kind == 2: return np.cumsum(rng.choice([1e-12, 1e-3, 1.0, 1e6], n)) - 5.0
    return np.arange(n) - float(rng.randint(0, 5))

def record(s, fn, name, X, ties, form, default=False, codes=None, probe=()):
    """X: 2-d array of data, columns are ranked; codes: small numbers in the same order where floats cannot tell the values apart"""
    X = np.asarray(X)
    C = X if codes is None else codes
    df, vec, cols, idx = False, False, [], []
    if form == "list": arg = X.tolist()
    elif form == "tuple": arg = tuple(map(tuple, X.tolist()))
    elif form == "fortran": arg = np.asfortranarray(X)
    elif form == "df":
        cols = [f"c{j}" for j in rng.permutation(X.shape[1])]
        ix = rng.permutation(len(X)) * 3 + 5
        arg = pd.DataFrame(X, columns=cols, index=ix); df = True; idx = [str(i) for i in ix]
    elif form == "vec": arg = X[:, 0].copy(); vec = True
    elif form == "veclist": arg = X[:, 0].tolist(); vec = True
    elif form == "series": arg = pd.Series(X[:, 0]); vec = True
    else: arg = X
    data = [fl(C[:, 0])] if vec else [fl(C[:, j]) for j in range(X.shape[1])]
    kw = {} if default else dict(ties=ties)
    if name == "rank_data1": call = lambda: fn(arg, 1, **kw)
    elif name == "rank_data0": call = lambda: fn(arg, 0, **kw)
    else: call = lambda: fn(arg, **kw)
    s.ev("rank" if name.startswith("rank") else "pobs", f"{name}({form} {X.shape}, ties={'default' if default else ties})", call,
         ties=ties, data=data, df=df, vec=vec, cols=cols, idx=idx, byrow=False, probe=[int(i) for i in probe])

# every enumerated column, batched into matrices of equal length
by_n = {}
for x in a.gen_data: by_n.setdefault(len(x), []).append(x)
W = 16
for n, xs in sorted(by_n.items()):
    for k in range(0, len(xs), W):
        chunk = np.array(xs[k:k + W], dtype=float).T
        s = tr.session(f"columns n={n} #{k}")
        for ties in RULES:
            lv = levels(n)
            X = lv[chunk.astype(int) - 1]
            form = ["arr", "list", "df", "fortran", "tuple"][rng.randint(5)]
            record(s, pseudo_obs, "pseudo_obs", X, ties, form)
            record(s, rank_data, "rank_data1", X, ties, "arr")
            # along axis 0 every row is ranked
            R = np.ascontiguousarray(X.T)
            s.ev("rank", f"rank_data(axis=0 {R.shape}, {ties})", lambda: rank_data(R, ties=ties) if n % 2 else rank_data(R, 0, ties), ties=ties, data=[fl(r) for r in R], df=False, vec=False, cols=[], idx=[], byrow=True, probe=[])
            record(s, pseudo_obs, "pseudo_obs", X, ties, ["vec", "veclist", "series"][rng.randint(3)])
            record(s, rank_data, "rank_data", X, ties, "vec")
        record(s, pseudo_obs, "pseudo_obs", X, "average", "df", default=True)
        record(s, GaussianCopula.pobs, "GaussianCopula.pobs", X, "average", "arr", default=True)
        record(s, ClaytonCopula(2.).pobs, "ClaytonCopula().pobs", X, RULES[rng.randint(5)], "df")
# longer data with many kinds of ties
for t in range(60 if a.thorough else 24):
    n = int(rng.choice([1, 2, 7, 15, 33, 64, 101])); d = int(rng.choice([1, 2, 3, 5, 11] if n < 34 else [1, 2, 3, 5]))
    if t % 3 == 0: X = rng.normal(size=(n, d))
    elif t % 3 == 1: X = rng.randint(0, max(2, n // 3), size=(n, d)).astype(float if t % 2 else int)
    else: X = np.round(rng.standard_cauchy((n, d)), 1)
    s = tr.session(f"data {n}x{d}")
    for ties in RULES:
        for form in ("arr", "df", "list"):
            record(s, pseudo_obs, "pseudo_obs", X, ties, form)
        record(s, rank_data, "rank_data1", X, ties, "arr")
        record(s, pseudo_obs, "pseudo_obs", X, ties, "vec")
    record(s, pseudo_obs, "pseudo_obs", X, "average", "df", default=True)
# long columns, at some of their rows
for t, n in enumerate([150, 700, 1500, 2600] + ([20000] if a.thorough else [])):
    X = [rng.normal(size=(n, 2)), np.round(rng.normal(size=(n, 2)), 2) + 0., rng.randint(0, 40, (n, 2)).astype(float)][t % 3]
    probe = np.r_[1, n, rng.randint(1, n + 1, 6)]
    s = tr.session(f"long {n}")
    for q, ties in enumerate(RULES):
        record(s, pseudo_obs, "pseudo_obs", X, ties, ["arr", "df", "list", "vec"][(q + t) % 4], probe=probe)
        record(s, rank_data, "rank_data1", X, ties, "arr", probe=probe)
# values at the edges of their types: only their order counts
EDGES = dict(
    nanoseconds=np.int64(1_600_000_000_000_000_000) + np.arange(8), int64_max=np.int64(2 ** 63 - 8) + np.arange(8),
    int64_min=np.int64(-2 ** 63) + np.arange(8), uint64=np.uint64(2 ** 64 - 8) + np.arange(8, dtype=np.uint64), int8=np.arange(-128, -120).astype(np.int8),
    uint8=np.arange(248, 256).astype(np.uint8), adjacent=1 + np.arange(8) * 2.0 ** -52, subnormal=(np.arange(8) - 3) * 5e-324,
    extreme=np.array([-1e308, -1e300, -1e-320, 0.0, 1e-320, 1.0, 1e300, 1e308]), float32=(1 + np.arange(8) * 2.0 ** -23).astype(np.float32), bool=np.array([False] * 1 + [True] * 7))
for t, (kind, lv) in enumerate(EDGES.items()):
    code = np.arange(8) if kind != "bool" else np.array([0] + [1] * 7)
    for n in (1, 4, 9):
        K = rng.randint(0, 8, size=(n, 3)); X = lv[K]; C = code[K].astype(float)
        s = tr.session(f"edges {kind} {n}")
        for q, ties in enumerate(RULES):
            for form in ("arr", ["df", "fortran", "vec", "series"][(q + t) % 4]) + (("list",) if kind != "uint64" else ()): record(s, pseudo_obs, f"pseudo_obs[{kind}]", X, ties, form, codes=C)
            record(s, rank_data, "rank_data1", X, ties, "arr", codes=C)
        record(s, GaussianCopula.pobs, f"GaussianCopula.pobs[{kind}]", X, "average", "arr", default=True, codes=C)
    # zero has one rank whatever its sign
    if kind == "extreme":
        s = tr.session("signed zero"); Z = np.array([[0.0, -1.0], [-0.0, 0.0], [1.0, -0.0], [-0.0, 2.0]])
        for ties in RULES: record(s, pseudo_obs, "pseudo_obs[signed zero]", Z, ties, "arr")
tr.save()
