"""C15: symmetry tests."""
from hx import *
from copulae.gof import exch_test, rad_sym_test

a = parse(); rng = a.rng; tr = Trace(a.out)
TIES = ["average", "min", "max", "dense", "ordinal"]

def stat(r):
    if hasattr(r, "p_value"):
        return dict(k="stat", s=f(r.statistic), p=f(r.p_value), e="", m=str(r.method))
    return dict(k="other", e=type(r).__name__)
def conv(x): return enc(x) if isinstance(x, BaseException) else stat(x)

def exch(s, X, i, j, N, m, ties, k, expect="", op="exch", **kw):
    u, v = X[:, i], X[:, j]
    if k % 4 == 1: u, v = u.tolist(), v.tolist()
    if k % 4 == 2: u, v = np.asfortranarray(X)[:, i], X[::1, j]
    if k % 4 == 3 and np.all(X == np.round(X)): u, v = u.astype(int), v.astype(int)
    o = dict(N=N, m=m, ties=ties)
    if m == 0 and k % 2: o.pop("m")
    if ties == "average" and k % 3 == 0: o.pop("ties")
    s.ev(op, f"exch_test(n={len(X)}, {o})", lambda: exch_test(u, v, **o), conv, i=i + 1, j=j + 1, N=N, m=m, ties=ties, expect=expect, **kw)
def radial(s, X, N, ties, k, expect="", op="radial"):
    x = [lambda: X, lambda: pd.DataFrame(X), lambda: X.tolist(), lambda: np.asfortranarray(X)][k % 4]()
    o = dict(N=N, ties=ties)
    if ties == "average" and k % 3 == 0: o.pop("ties")
    s.ev(op, f"rad_sym_test(n={len(X)} d={X.shape[1]}, {o})", lambda: rad_sym_test(x, **o), conv, N=N, ties=ties, expect=expect)
def increasing(X, k): return [lambda: X, lambda: np.exp(X), lambda: X ** 3 * 2 - 7][k % 3]()

for k, g in enumerate(a.gen_data):
    X = np.array(g["rows"], float); X = X[rng.permutation(len(X))]
    s = tr.session(f"pattern {k}", rows=mat(X))
    t = TIES[k % 5]
    N = int(rng.choice([1, 2, 5, 19]))
    exch(s, X, 0, 1, N, [0, 4][k % 2], t, k)
    radial(s, X, N, TIES[(k + 2) % 5] if k % 3 else "average", k)
    Y = increasing(X, 1 + k % 2)
    exch(s, Y, 1, 0, N, [4, 0, 1][k % 3], t, k + 1)
    if k % 3 == 0: radial(s, Y, N, "average", k + 1)

def sample(n, d, k):
    z = rng.normal(size=(n, 1)) * rng.uniform(0, 2)
    X = z + rng.normal(size=(n, d))
    if k % 3 == 1: X = np.round(X)
    if k % 3 == 2: X = np.round(X * 2) / 2; X[:, 0] += rng.normal(size=n)
    return X
for k in range(300 if a.thorough else 50):
    n = int(rng.choice([2, 3, 5, 10, 17, 30, 45, 63])); d = int(rng.randint(2, 6))
    X = sample(n, d, k)
    s = tr.session(f"sample {k}", rows=mat(X))
    for q in range(2):
        i, j = (int(c) for c in rng.permutation(d)[:2])
        exch(s, X, i, j, int(rng.choice([1, 3, 10])), int(rng.choice([0, 0, 1, 2, 5, 9])), TIES[(k + q) % 5], k + q)
    radial(s, X, int(rng.choice([1, 3, 10])), TIES[k % 5] if k % 2 else "average", k)
    # the answers follow the data, not an earlier call
    Y = sample(n, d, k + 1); s.note("change", "other data", rows=mat(Y))
    exch(s, Y, 0, 1, 3, 0, "average", k); radial(s, Y, 3, "average", k + 1)
    if k % 12 == 4:       # longer data
        Z = sample([130, 110, 220][k // 12 % 3], 2, k // 12 + 1); s.note("change", "longer data", rows=mat(Z))
        t = TIES[[0, 1, 2, 4][k // 12 % 4]]
        exch(s, Z, 0, 1, 1, [0, 12, 0, 7][k // 12 % 4], t, k); radial(s, Z, 1, t, k)
    if k % 5 == 0:
        x, y = X[:, 0], X[:, 1]
        for what, fn in dict(N=lambda: exch_test(x, y, N=0), N2=lambda: exch_test(x, y, N=2.5), grid=lambda: exch_test(x, y, N=3, m=-1), grid2=lambda: exch_test(x, y, 3, 1.5),
                             lengths=lambda: exch_test(x, y[1:], 3), matrix=lambda: exch_test(X, X, 3), N3=lambda: rad_sym_test(X, N=0), vector=lambda: rad_sym_test(x, N=3), ties=lambda: exch_test(x, y, 3, ties="median"), ties2=lambda: rad_sym_test(X, 3, "median")).items():
            s.ev("refuse", what, fn, what=what.rstrip("23"))

# p-values: symmetric and strongly asymmetric data, and the multiplier bootstrap
for k in range(24 if a.thorough else 8):
    n = 80
    x = np.arange(n) / n
    y = np.where(x < .5, x + .5, x - .5) * 1. + .15 * np.abs(rng.normal(size=n)) * (x < .5)      # C(x, y) far from C(y, x)
    w = rng.uniform(size=2 * n); asym = np.c_[w, (w + .3) % 1.]
    s = tr.session(f"asymmetric {k}", rows=mat(asym))
    exch(s, asym, 0, 1, 199, [0, 6][k % 2], "average", k, "small")
    tied = np.ceil(asym * 20); s.note("change", "with ties", rows=mat(tied))
    exch(s, tied, 0, 1, 99, [0, 6][k % 2], "average", k, "small")
    g = rng.gamma(.35, size=(300, 1)); c = (1 + rng.exponential(size=(300, 2)) / g) ** (-.35)    # lower tail dependence
    s.note("change", "radially asymmetric", rows=mat(c))
    radial(s, c, 199, "average", k, "small")
    z = rng.multivariate_normal([0, 0], [[1, .5], [.5, 1]], 30); sym = np.r_[z, z[:, ::-1]]
    s.note("change", "exchangeable", rows=mat(sym)); exch(s, sym, 0, 1, 99, 0, ["average", "min", "max", "dense"][k % 4], k, "large")
    rs = np.r_[z, -z]; s.note("change", "radially symmetric", rows=mat(rs)); radial(s, rs, 99, "average", k, "large")
    h = rng.multivariate_normal([0, 0], [[1, .4], [.4, 1]], 16 + k % 4); h[:, 1] += .5 * h[:, 0] ** 2
    s.note("change", "multiplier", rows=mat(h))
    exch(s, h, 0, 1, 3000, [0, 4][k % 2], "average", k, op="law", Z=mat(rng.normal(size=(1500, len(h)))))
# the bootstrap itself, on samples small enough to go through all of its coin tosses
for k in range(64 if a.thorough else 16):
    s = tr.session(f"bootstrap {k}", rows=[])
    n = 8 if k % 3 else 6; X = rng.normal(size=(n, 2)); m = [0, 4, 0, 4][k // 4 % 4]
    if k % 4 in (0, 2): X[:, 0] = np.round(X[:, 0] * rng.choice([1, 2]))
    if k % 4 in (1, 2): X[:, 1] = np.round(X[:, 1] * rng.choice([1, 2]))
    if k % 4 == 3: X[rng.randint(n - 1), k // 4 % 2] = X[n - 1, k // 4 % 2]        # a single tie
    s.note("change", "small sample with ties", rows=mat(X))
    exch(s, X, k % 2, 1 - k % 2, 4000, m, TIES[k // 2 % 4], k, op="exch bootstrap")
    n = [7, 7, 3][k % 3]; Y = rng.normal(size=(n, 2 + k % 2))                        # 1 - u meets the ranks exactly
    if k % 4 == 1: Y[:, 0] = np.round(Y[:, 0])
    if k % 4 == 2: Y[:, -1] = np.round(Y[:, -1] * 2)
    if k % 4 == 3: Y = np.round(Y * 2)
    s.note("change", "small sample", rows=mat(Y))
    radial(s, Y, 4000, TIES[k % 5], k, op="radial bootstrap")
# ties in one series only, as strong as such a sample allows
for k in range(24 if a.thorough else 8):
    n, d = 7, 2 + (k % 4 in (0, 3))      # 1 - u meets the ranks exactly
    Y = rng.normal(size=(n, d)); c = [d - 1, d - 1, 0, d - 1 - k // 4 % 3][k % 4]
    Y[:, c] = np.round(Y[:, c] / ([1, 1.3, 1][k % 3] if d == 2 else 1.6))
    s = tr.session(f"ties in one series {k}", rows=mat(Y))
    radial(s, Y, 4000, ["average", "average", "max"][k % 3 if d == 2 else 0], k, op="radial bootstrap")
tr.save()
