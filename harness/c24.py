"""C24: stable and multivariate Student laws."""
from hx import *
from copulae.stats import skew_stable, multivariate_t

a = parse(); rng = a.rng; tr = Trace(a.out); R = 6 if a.thorough else 1

def layout(x, n):
    """(argument, shape of the answer, () when free)"""
    x = np.asarray(x, float); m = x.size; k = n % 7
    if m == 1: return [x.item(), x[0], x, x.tolist(), x.item(), x.reshape(1, 1), pd.Series(x)][k], []
    if k == 1 and m % 2 == 0: return x.reshape(2, -1), [2, m // 2]
    if k == 2 and m % 2 == 0: return np.asfortranarray(x.reshape(2, -1)), [2, m // 2]
    if k == 3: return np.repeat(x, 2)[::2], [m]
    if k == 4: return pd.Series(x, index=range(3, 3 + m)), [m]
    if k == 5: y = x.copy(); y.flags.writeable = False; return y, [m]
    if k == 6: return tuple(x), [m]
    return x.tolist(), [m]
def stable(s, x, al, be, ga=1., de=0., pm=0, log=False, n=0, form=0, op="stable", **more):
    X, shape = layout(x, n); before = np.array(X)
    if log: calls = [lambda: skew_stable.logpdf(X, al, be, ga, de, pm), lambda: skew_stable.pdf(X, al, be, ga, de, pm, True), lambda: skew_stable.logpdf(X, alpha=al, beta=be, gamma=ga, delta=de, pm=pm), lambda: skew_stable.pdf(X, al, be, pm=pm, log=True, delta=de, gamma=ga)]
    else: calls = [lambda: skew_stable.pdf(X, al, be, ga, de, pm), lambda: skew_stable.pdf(X, al, be, ga, de, pm, False), lambda: skew_stable.pdf(x=X, alpha=al, beta=be, pm=pm, gamma=ga, delta=de)]
    if (ga, de, pm) == (1, 0, 0): calls.append(lambda: skew_stable.logpdf(X, al, be) if log else skew_stable.pdf(X, al, be))
    key = f"skew_stable.{'log' if log else ''}pdf({X!r}, {al}, {be}, {ga}, {de}, pm={pm})"[:300]
    v, e = s.run(key, calls[form % len(calls)])
    ok = e is None and np.size(v) == np.size(x) and (len(x) == 1 or list(np.shape(v)) == shape)
    s.note(op, key, x=fl(x), al=f(al), be=f(be), ga=f(ga), de=f(de), pm=pm, log=bool(log), got=fl(v) if ok else [], kept=bool(np.array_equal(before, np.array(X))), res=enc(e) if e else dict(EMPTY, k="ok"), **more)
    return v if ok else np.full(len(x), np.nan)

def zeta(al, be): return 0. if al == 2 else -be * np.tan(np.pi * al / 2)
def points(al, be, k):
    z = 0 if al == 1 else zeta(al, be); top = min(1e5, 1e8 ** (1 / al))
    x = np.concatenate([rng.normal(size=k) * 2, rng.choice([-1, 1], k // 2) * top ** rng.uniform(.1, 1, k // 2), z + rng.normal(size=k // 2) * (1 + abs(z)) * .3, [0., z]])
    if al not in (1, 2): x = x[(x == z) | (np.abs(x - z) > 1e-3 * (1 + abs(z)))]
    return x[np.abs(x) <= 1e5]
AL = [.4, .5, .7, .9, 1., 1.1, 1.3, 1.5, 1.7, 1.9, 1.98, 2.]; BE = [-1., -.7, -.3, 0., .2, .5, .95, 1.]
def law():
    al = float(rng.choice(AL)) if rng.randint(3) else float(np.round(rng.uniform(.4, 2), 2)); be = float(rng.choice(BE)) if rng.randint(3) else float(np.round(rng.uniform(-1, 1), 2))
    if 0 < abs(al - 1) < .05: al = 1.
    return al, be
def number(v, n): return int(v) if float(v).is_integer() and n % 3 == 0 else np.float64(v) if n % 3 == 1 else v

s = tr.session("the laws of the design model")
grid = {}
for g in a.gen_data:
    if g["kind"] == "stable": grid.setdefault((float(g["al"]), float(g["be"])), set()).add(float(g["x"]))
for i, ((al, be), xs) in enumerate(sorted(grid.items())): stable(s, sorted(xs), al, be, log=i % 2 == 1, n=i, form=i)

s = tr.session("densities")
for i in range(60 * R):
    al, be = law(); ga, de = (1., 0.) if rng.randint(2) else (float(np.round(10 ** rng.uniform(-2, 2), 3)), float(np.round(rng.normal() * 5, 2)))
    pm = int(rng.choice([0, 1, 2]))
    if pm == 2 and al < .5: pm = 0
    x = points(al, be, 6); rng.shuffle(x); x = x[:int(rng.choice([1, 2, 4, 8]))]
    if pm == 0 or al == 2: loc, sc = de, ga
    elif pm == 1: loc, sc = de + be * ga * (2 / np.pi * np.log(ga) if al == 1 else np.tan(np.pi * al / 2)), ga
    else: loc, sc = de, ga
    if pm == 2: x = x[np.abs(x) < 1e3] if np.any(np.abs(x) < 1e3) else np.array([.4])
    y = x * sc + loc
    stable(s, y, number(al, i), number(be, i + 1), number(ga, i), number(de, i), pm, bool(rng.randint(2)), int(rng.randint(7)), int(rng.randint(4)))
# far in either tail: the tail approximation takes over
for i in range(6 * R):
    al, be = law()
    if al >= 1.95: al = 1.6
    be = .9 * be
    stable(s, rng.choice([-1, 1], 4) * min(1e5, 1e8 ** (1 / al)) * rng.uniform(.1, 1, 4), al, be, 1., 0., 0, bool(i % 2), i)

# a hair away from the point where the integral degenerates
for i in range(16 * R):
    al, be = law()
    if al in (1., 2.): al = 1.5
    if i % 2: be = [0., 1., -1., .995][i // 2 % 4]
    if abs(be) > .99 and al < 1: be = .9 * be
    z = zeta(al, be); x = z + rng.choice([-1, 1], 5) * 10 ** rng.uniform(-17, -12.3, 5) * max(abs(z), .1)
    stable(s, x, al, be, log=bool(i % 3 == 1), n=i, form=i)
    stable(s, [.1 + .2], al, 0. if i % 2 else be, 1., .3 + z * (i % 2 == 0), 1 if i % 2 == 0 else 0, log=bool(i % 3 == 0), n=i, form=i)

s = tr.session("relations")
for i in range(16 * R):
    al, be = law(); ga = float(np.round(10 ** rng.uniform(-1, 1), 2)); de = float(np.round(rng.normal() * 3, 2)); x = points(al, be, 4)[:6]; x = x[np.abs(x) < 1e3]; log = bool(rng.randint(2))
    if not len(x): continue
    # mirrored around the location, and standardized
    s.note("pair", f"mirror images of skew_stable(alpha={al}, beta={be}, gamma={ga}, delta={de})", what="mirror", log=log, ga=f(ga), x=fl(x),
           one=fl(s.run("mirror", lambda: skew_stable.pdf(de + ga * x, al, be, ga, de, 0, log))[0]), two=fl(s.run("mirror", lambda: skew_stable.pdf(de - ga * x, al, -be, ga, de, 0, log))[0]))
    s.note("pair", f"skew_stable(alpha={al}, beta={be}, gamma={ga}, delta={de}) and its standard law", what="affine", log=log, ga=f(ga), x=fl(x),
           one=fl(s.run("affine", lambda: skew_stable.pdf(de + ga * x, al, be, ga, de, 0, log))[0]), two=fl(s.run("affine", lambda: skew_stable.pdf(x, al, be, 1., 0., 0, log))[0]))
# the mode of the third parameterization
for i in range(8 * R):
    al, be = law()
    if al < .5: al = 1.4
    ga = float(np.round(10 ** rng.uniform(-1, 1), 2)); de = float(np.round(rng.normal() * 3, 2)); h = ga * np.array([-.3, -.1, -.05, 0, .05, .1, .3])
    v, e = s.run("mode", lambda: skew_stable.pdf(de + h, al, be, ga, de, 2))
    s.note("mode", f"skew_stable.pdf({de} + {h.tolist()}, {al}, {be}, {ga}, {de}, pm=2)", got=fl(v) if e is None else [], res=enc(e) if e else dict(EMPTY, k="ok"))

s = tr.session("samples of stable laws")
N = 100000 if a.thorough else 40000
LAWS = [(1., 0.), (1., .8), (1., -.6), (2., 0.), (2., .5), (.5, 1.), (.5, -1.), (.7, .4), (1.5, -.9), (1.3, 1.), (1.9, .2), (1.7, 0.), (1., -1.), (1., 1e-9)]
for i, (al, be) in enumerate(LAWS if not a.thorough else LAWS + [law() for _ in range(20)]):
    pm = [0, 1, 2][(i + a.seed) % 3]; ga, de = (1., 0.) if i % 2 else (2.5, -3.)
    np.random.seed(a.seed * 100 + i)
    kind = i % 3
    size = [N, (N // 4, 4), N][kind]
    call = [lambda: skew_stable.rvs(al, be, ga, de, pm, size), lambda: skew_stable.rvs(al, be, gamma=ga, delta=de, pm=pm, size=size), lambda: skew_stable.rvs(alpha=al, beta=be, gamma=ga, delta=de, size=size)][kind]
    if kind == 2: pm = 1
    key = f"skew_stable.rvs({al}, {be}, {ga}, {de}, pm={pm}, size={size})"
    v, e = s.run(key, call)
    if e is None and np.shape(v) == (size if isinstance(size, tuple) else (size,)):
        x = np.ravel(v); at = np.quantile(x, [.02, .15, .5, .8, .97]); at = np.round(at, 2)
        s.note("rvs", key, al=f(al), be=f(be), ga=f(ga), de=f(de), pm=pm, n=x.size, at=fl(at), below=[int(np.sum(x <= t)) for t in at], res=dict(EMPTY, k="ok"))
    else: s.note("rvs", key, al=f(al), be=f(be), ga=f(ga), de=f(de), pm=pm, n=0, at=[], below=[], res=enc(e) if e else dict(EMPTY, k="other", e=str(np.shape(v))))

# ---- elementary samplers ----
from copulae.stats.log import random_log_series_ln1p
from copulae.stats import random_uniform
s = tr.session("logarithmic series and uniform samples")
for i, al in enumerate([-1e-9, -.02, -.7, -2.2, -2.9999, -3., -3.2, -5., -11., -37., -200., -float(np.round(10 ** rng.uniform(-2, 2), 3))] * R):
    size = [N, (N // 4, 4), (N // 2, 2), N][(i + a.seed) % 4]
    np.random.seed(a.seed * 77 + i)
    call = [lambda: random_log_series_ln1p(al, size), lambda: random_log_series_ln1p(alpha=al, size=size)][i % 2]
    v, e = s.run(f"random_log_series_ln1p({al}, {size})", call)
    ok = e is None and np.shape(v) == (size if isinstance(size, tuple) else (size,))
    at = [1, 2, 3, 5, 10, 40, 300]
    s.note("series", f"random_log_series_ln1p({al}, {size})", al=f(al), n=int(np.size(v)) if ok else 0, at=at, below=[int(np.sum(v <= t)) for t in at] if ok else [], whole=bool(ok and np.all((v >= 1) & ((v == np.floor(v)) | np.isinf(v)))), res=dict(EMPTY, k="ok") if ok else enc(e) if e else dict(EMPTY, k="other", e=str(np.shape(v))))
for i in range(6 * R):
    n, d, sd = int(rng.choice([1, 7, 5000])), int(rng.randint(1, 6)), int(rng.randint(10 ** 6)) if i % 3 else None
    if sd is None: np.random.seed(1000 + i + a.seed)
    one, e = s.run("random_uniform", lambda: random_uniform(n, d, sd)); two, e2 = s.run("random_uniform", lambda: random_uniform(n, d, seed=sd)); oth, e3 = s.run("random_uniform", lambda: random_uniform(n, d, None if sd is None else sd + 1))
    ok = e is None and e2 is None and e3 is None and np.shape(one) == (n, d) == np.shape(two) == np.shape(oth)
    x = np.asarray(one, float) if ok else np.zeros((1, 1)); at = [.1, .5, .8]
    s.note("uniform", f"random_uniform({n}, {d}, {sd})", n=x.size, at=fl(at), below=[int(np.sum(x <= t)) for t in at], inside=bool(np.all((x >= 0) & (x <= 1))), again=bool(ok and (np.array_equal(one, two) == (sd is not None))), other=bool(ok and not np.array_equal(one, oth)),
           apart=bool(ok and len(np.unique(x)) == x.size), res=dict(EMPTY, k="ok") if ok else enc(e or e2 or e3) if (e or e2 or e3) else dict(EMPTY, k="other", e=str(np.shape(one))))

# ---- multivariate Student ----
def cov(d, n):
    A = rng.normal(size=(d, d + 1)); S = A @ A.T / d + .2 * np.eye(d)
    if n % 3 == 0: D = np.sqrt(np.diag(S)); S = S / D / D[:, None]
    return (S + S.T) / 2
def mvt(s, d, df, n):
    S = cov(d, n); m = rng.normal(size=d).round(2) * (n % 2); k = [1, 3, 4, 6][rng.randint(4)]; x = m + rng.normal(size=(k, d)) * rng.choice([.3, 1, 10, 1e6 if n % 5 == 0 else 2])
    mean = [m, m.tolist(), None if not m.any() else m, pd.Series(m)][rng.randint(4)]
    if rng.randint(4) == 0: c = float(np.round(rng.normal(), 1)); mean, m = [c, int(round(c))][n % 2], None; m = np.full(d, float(mean))
    C = [S, S.tolist(), np.asfortranarray(S)][rng.randint(3)]
    if d == 1 and rng.randint(2): c = float(np.round(rng.uniform(.3, 4), 1)); C = [c, int(np.ceil(c))][n % 2]; S = np.array([[float(C)]])
    X, shape = x, [k]
    j = rng.randint(5)
    if j == 0: X = x.tolist()
    elif j == 1 and k % 2 == 0: X, shape = x.reshape(2, k // 2, d), [2, k // 2]
    elif j == 2 and k == 1: X = x[0] if d > 1 or rng.randint(2) else float(x[0, 0])
    elif j == 3 and d == 1: X = x[:, 0]
    elif j == 4: X = pd.DataFrame(x)
    log = bool(rng.randint(2)); fn = multivariate_t.logpdf if log else multivariate_t.pdf
    plain = np.all(S == np.eye(d)) and d == 1
    calls = [lambda: fn(X, mean, C, df), lambda: fn(x=X, mean=mean, cov=C, df=df), lambda: fn(X, mean=mean, cov=C, df=df)]
    key = f"multivariate_t.{'log' if log else ''}pdf({np.array(X).tolist()!r}, {mean!r}, {np.array(C).tolist()!r}, {df})"[:400]
    v, e = s.run(key, calls[n % 3])
    ok = e is None and np.size(v) == k and (k == 1 or list(np.shape(v)) == shape)
    s.note("mvt", key, x=[fl(r) for r in x], mean=fl(m), cov=mat(S), df=f(4.6692 if df is None else df), log=log, got=fl(v) if ok else [], res=enc(e) if e else dict(EMPTY, k="ok" if ok else "other", e="" if ok else str(np.shape(v))))

s = tr.session("multivariate Student densities")
pairs = sorted({(g["d"], float(g["df"])) for g in a.gen_data if g["kind"] == "mvt"})
for r in range(2 * R):
    for n, (d, df) in enumerate(pairs): mvt(s, d, df, n + r)
    for d in (1, 2, 5):
        for df in (None, 1, 3, 9999.5, 10000, 10001., 1e6, float(np.round(10 ** rng.uniform(-1, 3), 2))): mvt(s, d, df, int(rng.randint(30)))

s = tr.session("samples of multivariate Student laws")
N = 60000 if a.thorough else 20000
def rvs(d, df, kind, n):
    S = cov(d, n); m = rng.normal(size=d).round(1) * 1.5
    if n % 4 == 0: m = np.zeros(d)
    mean = None if not m.any() else m
    size = [N, (N // 4, 4), np.int64(N)][n % 3] if n % 3 != 2 else N
    seed = int(rng.randint(1, 1000)); C = S if d > 1 or n % 2 else float(S[0, 0])
    key = f"multivariate_t.rvs({mean!r}, {np.array(C).tolist()!r}, {df}, {size}, {kind!r}, {seed})"
    v, e = s.run(key, lambda: multivariate_t.rvs(mean, C, df, size, kind, seed))
    w, e2 = s.run(key, lambda: multivariate_t.rvs(mean=mean, cov=C, df=df, size=size, type_=kind, random_state=seed))
    u, e3 = s.run(key, lambda: multivariate_t.rvs(mean=mean, cov=C, df=df, size=size, type_=kind, random_state=seed + 1))
    full = (list(size) if isinstance(size, tuple) else [int(size)]) + ([d] if d > 1 else [])
    args = dict(mean=fl(m), cov=mat(S), df=f(df), type=kind.lower(), n=N)
    if e is None and [q for q in np.shape(v) if q != 1] == full:
        x = np.reshape(v, (-1, d)); at = np.quantile(x, [.03, .3, .5, .75, .98], axis=0).round(2)
        s.note("mvtrvs", key, at=mat(at.T), below=[[int(np.sum(x[:, j] <= t)) for t in at[:, j]] for j in range(d)],
               orth=int(np.sum(np.all((x - m)[:, :2] <= 0, axis=1))), again=bool(e2 is None and np.array_equal(v, w)), other=bool(e3 is None and not np.array_equal(v, u)), res=dict(EMPTY, k="ok"), **args)
    else: s.note("mvtrvs", key, at=[], below=[], orth=0, again=True, other=True, res=enc(e) if e else dict(EMPTY, k="other", e=str(np.shape(v))), **args)
for n, (d, df) in enumerate([(1, 3.), (2, 2.5), (3, 6), (2, 1), (1, 9.), (2, 20000.), (4, 4.6692), (2, 40), (3, 9999.)] * (3 if a.thorough else 1)):
    for kind in ("shifted", "Kshirsagar", "kshirsagar", "SHIFTED")[n % 2::2][:1 + R // 3]: rvs(d, df, kind, n + 2 * a.seed)
# shapes of small draws
for d in (1, 2, 3):
    for size in (1, 2, 7, (1,), (2, 3), (4, 1), np.int64(5)):
        for kind in ("shifted", "kshirsagar"):
            for df in (3., 20000.):
                v, e = s.run("shape", lambda: multivariate_t.rvs(np.arange(d) * 1., np.eye(d), df, size, kind, 3))
                n = int(np.prod(size))
                s.note("size", f"multivariate_t.rvs(dim {d}, size={size!r}, df={df}, type_={kind!r})", want=[q for q in (list(size) if isinstance(size, tuple) else [int(size)]) + [d] if q != 1], shape=[q for q in np.shape(v) if q != 1] if e is None else [], finite=bool(e is None and np.all(np.isfinite(v))), res=enc(e) if e else dict(EMPTY, k="ok"))
v, e = s.run("global", lambda: (np.random.seed(5), multivariate_t.rvs(df=3, size=4), multivariate_t.rvs(df=3, size=4)))
s.note("fresh", "multivariate_t.rvs twice without a seed", ok=bool(e is None and not np.array_equal(v[1], v[2]) and np.all(np.isfinite(v[1]))))

s = tr.session("refusals")
for name, fn in dict(pdf=lambda **k: skew_stable.pdf(.3, **k), logpdf=lambda **k: skew_stable.logpdf([.3, 1], **k), rvs=lambda **k: skew_stable.rvs(size=3, **k)).items():
    for bad in (dict(alpha=0, beta=.1), dict(alpha=-.5, beta=.1), dict(alpha=2.01, beta=0.), dict(alpha=1.5, beta=1.01), dict(alpha=1.5, beta=-1.5), dict(alpha=1., beta=2.), dict(alpha=1.5, beta=.2, gamma=-1.), dict(alpha=1.5, beta=.2, pm=3), dict(alpha=1.5, beta=.2, pm=-1), dict(alpha=1.5, beta=.2, pm=.5), dict(alpha=2., beta=-1.0001), dict(alpha=np.nan, beta=0.), dict(alpha=1.4, beta=np.nan)):
        s.ev("refuse", f"skew_stable.{name}({bad})", lambda: fn(**bad))
N2 = np.array([[1, .4], [.4, 1]])
for name, fn in dict(pdf=lambda **k: multivariate_t.pdf([.3, .2], **k), logpdf=lambda **k: multivariate_t.logpdf([[.3, .2]], **k)).items():
    for bad in (dict(cov=N2, df=0), dict(cov=N2, df=-1.), dict(cov=[[1, 2], [2, 1.]], df=3), dict(cov=-N2, df=3), dict(cov=N2, mean=[1., 2, 3], df=3), dict(cov=N2, mean=[1.], df=3), dict(cov=N2, mean=np.zeros((2, 2)), df=3), dict(cov=np.ones((2, 3)), df=3), dict(cov=-1., df=3)):
        s.ev("refuse", f"multivariate_t.{name}({bad})", lambda: fn(**bad))
for bad in (dict(cov=N2), dict(cov=N2, df=0), dict(cov=N2, df=-2), dict(cov=N2, df=3, size=2.5), dict(cov=N2, df=3, size=[1.5, 2]), dict(cov=N2, df=3, type_="other"), dict(cov=N2, mean=[1., 2, 3], df=3), dict(cov=N2, df=3, type_="")):
    s.ev("refuse", f"multivariate_t.rvs({bad})", lambda: multivariate_t.rvs(**bad))
s.ev("refuse", "multivariate_t.cdf", lambda: multivariate_t.cdf([.3, .2], None, N2, 3)); s.ev("refuse", "multivariate_t.logcdf", lambda: multivariate_t.logcdf([.3, .2], None, N2, 3))
tr.save()
