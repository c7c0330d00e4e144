"""C11: drawing samples."""
from hx import *
from cops import *
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula

a = parse(); rng = np.random.RandomState(a.seed * 31 + 7); tr = Trace(a.out)
PARS = dict(clayton={2: [[2.], [-.4]], 3: [[.7], [6.]]}, frank={2: [[4.], [-3.]], 3: [[2.], [8.]]}, gumbel={2: [[1.5], [4.]], 3: [[1.2], [3.]]},
            gaussian={2: [[.5], [-.8]], 3: [[.3, .2, -.4], [.8, .6, .7]]}, student={2: [[3., .5], [8., -.6]], 3: [[4., .3, .2, -.4], [2.5, .8, .6, .7]]}, indep={2: [[]], 3: [[]]})
NAMES = ["beta", "alpha", "gamma"]

def gmc(d, v=0):
    g = GaussianMixtureCopula(2, d)
    g.params = mixture(d, v)
    return g

def mixture(d, v=0):
    if v == 0: return dict(prob=[.35, .65], means=np.vstack([np.zeros(d), np.linspace(2, 3, d)]), covs=np.array([np.eye(d) * .7 + .3, np.diag(np.linspace(.5, 2, d)) + .2]))
    return dict(prob=[.6, .4], means=np.vstack([np.linspace(-2, 1, d), np.linspace(1, -1, d)]), covs=np.array([np.eye(d), np.eye(d) * .3 + .1]))

def table(d, n=15):
    return pd.DataFrame(rng.normal(size=(n, d)) + 1.5 * rng.normal(size=(n, 1)), columns=NAMES[:d])

# ---- generated sequences of draws ----
FAMS = ["clayton", "frank", "gumbel", "gaussian", "student", "indep", "empirical", "gmc", "marginal"]
for fi, fam in enumerate(FAMS):
    for gi, g in enumerate(a.gen_data):
        d = 2 + (gi + fi) % 2
        k = gi % 2
        names = []
        if fam == "gmc": cop = gmc(d)
        elif fam == "indep":
            if gi % 3 == 2: names = NAMES[:d]
            cop = IndepCopula(d, names or None)
        elif fam == "empirical":
            T = table(d)
            if gi % 2: names = NAMES[:d]
            cop = EmpiricalCopula(T if names else T.to_numpy(), smoothing="beta")
        elif fam == "marginal":
            base = ["gaussian", "gumbel"][gi % 2]
            cop = MarginalCopula(make(base, d, PARS[base][d][0]), "norm")
        else: cop = make(fam, d, PARS[fam][d][k])
        lim = dict(lo=fl(-1e300)[0], hi=fl(1e300)[0]) if fam in ("marginal", "empirical") else dict(lo=0, hi=1)
        s = tr.session(f"{fam} d={d} {gi}", fam=fam, d=d, names=names, **lim)
        n_ch = 0
        for h in g["hist"]:
            if h["op"] == "draw":
                sd = None if h["seed"] < 0 else h["seed"]
                n = h["n"]
                if (gi + fi) % 3 == 1: call = lambda: cop.random(n, sd)
                elif (gi + fi) % 3 == 2 and sd is None: call = lambda: cop.random(n)
                else: call = lambda: cop.random(n, seed=sd)
                s.ev("draw", f"{fam}(dim={d}).random({n}, seed={sd})", call, seed=h["seed"], n=n, continuous=fam != "empirical")
            elif h["op"] == "change":
                n_ch += 1
                if fam == "gmc": fn = lambda: setattr(cop, "params", mixture(d, n_ch % 2))
                elif fam == "marginal": fn = lambda: assign(cop._copula, base, PARS[base][d][n_ch % 2])
                elif fam in PARS and fam != "indep": fn = lambda: assign(cop, fam, PARS[fam][d][(k + n_ch) % 2])
                else: fn = lambda: None
                _, e = s.run("change", fn)
                s.note("change", f"{fam} parameters changed", bad="" if e is None else repr(e))
            else:
                if fam in ("empirical", "indep", "gmc"):
                    s.note("change", "nothing to learn", bad=""); continue
                T = table(d)
                def fn():
                    cop.fit(T, verbose=0, method="itau")
                    if fam in PARS: assign(cop, fam, PARS[fam][d][k])
                    elif fam == "marginal": assign(cop._copula, base, PARS[base][d][0])
                _, e = s.run("learn", fn)
                s.note("learn", f"{fam}(dim={d}).fit(table)", names=NAMES[:d], bad="" if e is None else repr(e))

# ---- every small n, and unusual ways to say n ----
for fam in FAMS:
    for d in (2, 3, 4):
        if fam == "gmc": cop = gmc(d)
        elif fam == "empirical": cop = EmpiricalCopula(rng.normal(size=(9, d)))
        elif fam == "marginal": cop = MarginalCopula(make("gaussian", d), "norm")
        else: cop = make(fam, d, rand_par(rng, fam, d))
        lim = dict(lo=fl(-1e300)[0], hi=fl(1e300)[0]) if fam in ("marginal", "empirical") else dict(lo=0, hi=1)
        s = tr.session(f"{fam} d={d} sizes", fam=fam, d=d, names=[], **lim)
        for n in (1, 2, 3, 4, 5, 17, 64):
            for sd in (None, 0, 77):
                s.ev("draw", f"{fam}(dim={d}).random({n}, seed={sd})", lambda: cop.random(n, seed=sd), seed=-1 if sd is None else sd, n=n, continuous=fam != "empirical")

# ---- the law ----
N = 200000 if a.thorough else 30000
def lattice(fam, d):
    if d == 2: return [[x, y] for x in ((.1, .3, .5, .7, .9) if fam != "student" else (.15, .5, .8)) for y in ((.1, .3, .5, .7, .9) if fam != "student" else (.15, .5, .8))] + ([[.02, .02], [.02, .97], [.98, .03], [.98, .98], [.3, 1], [1, .6]] if fam != "student" else [[.05, .05], [.95, .1], [.4, 1], [1, .7]])
    out = [[1.] * i + [x] + [1.] * (d - i - 1) for i in range(d) for x in (.1, .5, .85)]
    for i in range(d):
        for j in range(i + 1, d):
            for x, y in ((.2, .2), (.3, .7), (.8, .85)) if fam != "student" else ((.2, .25), (.75, .4)):
                p = [1.] * d; p[i], p[j] = x, y; out.append(p)
    import itertools
    for c in itertools.combinations(range(d), 3):
        for v in ((.5, .5, .5),) if fam == "student" else ((.2, .3, .4), (.5, .5, .5), (.7, .3, .6), (.9, .8, .85)):
            p = [1.] * d
            for i, x in zip(c, v): p[i] = x
            out.append(p)
    if fam in ARCH or fam == "indep": out += [[.3] * d, [.6] * d, [.85] * d, list(np.linspace(.3, .9, d))]
    return out

def law(fam, d, par, cop, seed, mix=None, via="seed"):
    s = tr.session(f"law {fam} d={d}", fam=fam, d=d, names=[], lo=0, hi=1)
    at = lattice(fam, d)
    if via == "seed": X, e = s.run("law", lambda: np.asarray(cop.random(N, seed=seed), float))
    else:
        np.random.seed(seed)
        X, e = s.run("law", lambda: np.asarray(cop.random(N), float))
    if via == "single": pass
    bad = "" if e is None else repr(e)[:200]
    if e is None and X.shape != (N, d): bad = f"shape {X.shape}"
    if bad: X = np.zeros((1, d))
    below = [int((X <= np.array(p)).all(1).sum()) for p in at]
    key = f"{fam}(dim={d}, {[round(v, 4) for v in par]}).random({N}, {'seed=' + str(seed) if via == 'seed' else 'unseeded'})"
    s.note("law", key, fam=fam, d=d, par=[fl(p)[0] for p in par], at=[fl(p) for p in at], below=below, n=N, bad=bad,
           inside=bool(np.isfinite(X).all() and (X >= 0).all() and (X <= 1).all()), mix=mix or dict(w=[], m=[], s=[]))

CASES = [("clayton", 2, [-.7]), ("clayton", 2, [-.2]), ("clayton", 2, [.5]), ("clayton", 2, [5.]), ("clayton", 2, [20.]), ("clayton", 2, [0.]), ("clayton", 3, [.4]), ("clayton", 3, [3.]), ("clayton", 5, [1.5]), ("clayton", 3, [0.]),
         ("frank", 2, [-15.]), ("frank", 2, [-3.]), ("frank", 2, [-.45]), ("frank", 2, [0.]), ("frank", 2, [.5]), ("frank", 2, [6.]), ("frank", 2, [25.]), ("frank", 3, [0.]), ("frank", 3, [.3]), ("frank", 3, [2.5]), ("frank", 3, [3.5]), ("frank", 3, [12.]), ("frank", 3, [28.]), ("frank", 4, [5.]), ("frank", 5, [1.5]),
         ("gumbel", 2, [1.]), ("gumbel", 2, [1.1]), ("gumbel", 2, [2.]), ("gumbel", 2, [9.]), ("gumbel", 3, [1.]), ("gumbel", 3, [1.4]), ("gumbel", 3, [3.]), ("gumbel", 4, [2.]), ("gumbel", 5, [6.]),
         ("gaussian", 2, [-.85]), ("gaussian", 2, [0.]), ("gaussian", 2, [.4]), ("gaussian", 2, [.95]), ("gaussian", 3, [.5, -.3, .2]), ("gaussian", 3, [.8, .7, .75]), ("gaussian", 4, [.5, .3, -.2, .1, .4, -.5]),
         ("student", 2, [3., -.6]), ("student", 2, [1.5, .3]), ("student", 2, [30., .8]), ("student", 3, [4., .5, -.3, .2]), ("student", 4, [5., .5, .3, -.2, .1, .4, -.5]),
         ("indep", 2, []), ("indep", 3, []), ("indep", 5, [])]
for i, (fam, d, par) in enumerate(CASES):
    for via in ("seed", "free") if a.thorough or i % 3 == 0 else (("seed", "free")[i % 2],):
        law(fam, d, par, make(fam, d, par), a.seed * 1000 + i, via=via)
for rep in range(8 if a.thorough else 1):
    for fam in ("clayton", "frank", "gumbel", "gaussian"):
        for d in (2, 3):
            par = rand_par(rng, fam, d)
            law(fam, d, par, make(fam, d, par), int(rng.randint(1 << 30)))
for d, v in ((2, 0), (3, 0), (2, 1)):
    p = mixture(d, v)
    law("gmc", d, [], gmc(d, v), a.seed + d, mix=dict(w=fl(p["prob"]), m=[fl(r) for r in p["means"]], s=[[fl(r) for r in c] for c in p["covs"]]), via=["seed", "free"][v])
# after a change of parameters the new law is followed
for fam, d in (("clayton", 3), ("frank", 2), ("gumbel", 2), ("gaussian", 3), ("student", 2)):
    cop = make(fam, d, PARS[fam][d][0]); cop.random(3)
    assign(cop, fam, PARS[fam][d][1])
    law(fam, d, PARS[fam][d][1], cop, a.seed + 5)

# ---- rows of the data ----
for d in (2, 3):
    for ties in ("average", "max"):
        X = np.round(rng.normal(size=(11, d)), 0 if ties == "max" else 3)
        cop = EmpiricalCopula(X, ties=ties)
        s = tr.session(f"empirical d={d}", fam="empirical", d=d, names=[], lo=0, hi=1)
        D = np.asarray(cop.data, float)
        u, mult = np.unique(D, axis=0, return_counts=True)
        R, e = s.run("rows", lambda: np.asarray(cop.random(N, seed=a.seed), float))
        bad = "" if e is None else repr(e)[:200]
        if bad: R = D
        count = [int((R == r).all(1).sum()) for r in u]
        s.note("rows", f"EmpiricalCopula(dim={d}, ties={ties}).random({N})", n=N, mult=mult.tolist(), total=len(D), count=count, other=len(R) - sum(count), bad=bad)
tr.save()
