"""C17: copulas with specified margins."""
from hx import *
from cops import *
from copulae import MarginalCopula
from scipy import stats

a = parse(); rng = a.rng; tr = Trace(a.out)
SHAPES = dict(t=["df"], weibull_min=["c"], lognorm=["s"], pareto=["b"])
TYPES = ["norm", "expon", "uniform", "logistic", "cauchy", "laplace", "gumbel_r", "gumbel_l", "rayleigh", "t", "weibull_min", "lognorm", "pareto"]
ALIAS = dict(normal="norm", gaussian="norm", student="t", exp="expon")
FITTABLE = ["norm", "expon", "uniform", "logistic", "cauchy", "laplace", "gumbel_r", "gumbel_l"]

def flat(p):
    if hasattr(p, "df"): return [float(p.df), *np.ravel(p.rho)]
    return [float(v) for v in np.ravel(np.asarray(p, float))]

def obj(e):
    """the description the caller writes"""
    pars = {n: unf(v) for n, v in e["pars"]}
    f_, t = e["form"], e["type"]
    if f_ == "name": return t
    D = stats.norm if t not in TYPES else getattr(stats, t)
    if f_ == "bare": return D
    if f_ == "number": return 5
    if f_ == "notype": return {"parameters": pars}
    d = {"type": {"dict": t, "object": D, "frozen": stats.norm()}[f_]}
    if pars: d["parameters"] = pars
    return d
def unf(v): return float(np.array(v, ">i4").view(">f8")[0])
def written(desc, k):
    if desc["kind"] == "all": return obj(desc["one"])
    L = [obj(e) for e in desc["list"]]
    return tuple(L) if k % 3 == 1 else L
def margins(cop):
    out = []
    for m in cop.params["marginals"]:
        out.append(dict(type=str(m["type"]), names=[str(n) for n in m["parameters"]], par=fl([float(v) for v in m["parameters"].values()])))
    return out
def dists(desc, d):
    """the margins meant (only used to choose evaluation points)"""
    out = []
    for e in ([desc["one"]] * d if desc["kind"] == "all" else desc["list"]):
        t = e["type"].strip().lower(); t = ALIAS.get(t, t)
        kw = {n: unf(v) for n, v in e["pars"]}
        for n in SHAPES.get(t, []): kw.setdefault(n, .5)
        out.append(getattr(stats, t)(**kw))
    return out

def run(name, fam, d, par, desc, k, fitdata=None):
    s = tr.session(name, fam=fam, d=d, par=fl(par), desc=desc)
    tag = f"MarginalCopula({fam} {np.round(par, 3).tolist()}, {json.dumps(written(desc, k), default=lambda o: getattr(o, 'name', str(type(o).__name__)))[:120]})"
    cop = s.ev("construct", tag, lambda: MarginalCopula(make(fam, d, par), written(desc, k)))
    if cop is None: return
    try:
        D = dists(desc, d)
    except Exception:
        return      # an invalid description was accepted: reported above
    steady = all(not (m.dist.name == "t" and m.kwds["df"] < 1) for m in D)
    def look(tag):
        try: s.note("look", tag + ".params", par=fl(flat(cop.params["copula"]) if fam != "indep" else []), margins=margins(cop))
        except Exception as e: s.note("look", tag + ".params", par=fl([]), margins=[])
    def points(D, n):
        U = rng.uniform(.03, .97, size=(n, d))
        return np.column_stack([m.ppf(U[:, j]) for j, m in enumerate(D)])
    def evaluate(tag, cop, D, q):
        X = points(D, 3)
        if q % 2 and all(m.std() < np.inf and m.std() > .8 for m in D): 
            R = np.round(X)
            keep = [all(.001 < D[j].cdf(r[j]) < .999 for j in range(d)) for r in R]
            if any(keep): X = R[keep].astype(int)
        form = [lambda X: X, lambda X: pd.DataFrame(X, columns=[f"c{j}" for j in range(d)]), lambda X: X.tolist(), lambda X: np.asfortranarray(X)][q % 4]
        at = [fl(x) for x in np.asarray(X, float)]
        if q % 5 == 0: X, at = X[0], at[:1]; form = lambda X: X
        log = bool(q % 3 == 1)
        t2 = f" ({np.asarray(X).dtype}, {q % 4})"
        if fam != "student": s.ev("cdf", f"{tag}.cdf(log={log}){t2}", lambda: cop.cdf(form(X), log) if log else cop.cdf(form(X)), at=at, log=log)
        log = bool(q % 2)
        s.ev("pdf", f"{tag}.pdf(log={log}){t2}", lambda: cop.pdf(form(X), log=log) if log else cop.pdf(form(X)), at=at, log=log)
        if fam != "student" and not (fam == "gaussian" and d > 2):
            Y = np.array([[m.support()[0] - 1. if np.isfinite(m.support()[0]) else m.ppf(.5) for m in D], [m.support()[1] + 1. if np.isfinite(m.support()[1]) else m.ppf(.3) for m in D]])
            s.ev("cdf", f"{tag}.cdf(outside the support)", lambda: cop.cdf(Y), at=[fl(y) for y in Y], log=False)
        # far out: levels near 0 and 1, beyond them where the inner density is plain, and outside the support of a margin
        L = rng.choice([1e-9, 1e-5, .02, .5, .98, 1 - 1e-7], size=(3, d))
        if fam == "clayton" and par[0] < 0: L = L.clip(.4, 1)
        Z = np.column_stack([m.ppf(L[:, j]) for j, m in enumerate(D)])
        if fam in ("indep", "clayton", "frank"):
            for r in Z[:1 + q % 2]:
                j = rng.randint(d)
                if not np.isfinite(D[j].support()[1]) and D[j].dist.name in ("norm", "expon", "logistic", "gumbel_r", "weibull_min"): r[j] = D[j].ppf(.5) + [60, 800, 2000][rng.randint(3)] * (D[j].ppf(.7) - D[j].ppf(.5))
        Z = Z[[all(D[j].support()[0] < z[j] < D[j].support()[1] and D[j].cdf(z[j]) > 0 for j in range(d)) for z in Z]]
        if not len(Z): return
        out = Z[:1].copy(); j = rng.randint(d); lo, hi = D[j].support()
        if np.isfinite(lo): out[0, j] = lo - .5
        if np.isfinite(hi) and q % 2: out[0, j] = hi + .5
        Z = np.vstack([Z, out]); log = bool(q % 4)
        s.ev("pdf", f"{tag}.pdf(far out, log={log})", lambda: cop.pdf(Z, log=log), at=[fl(z) for z in Z], log=log)
    look(tag)
    if not steady: return
    evaluate(tag, cop, D, k)
    n = int(rng.randint(2, 8)); seed = int(rng.randint(1, 10 ** 6))
    twin = make(fam, d, par)
    u, e = s.run("inner draw", lambda: twin.random(n, seed))
    if e is None: s.ev("draw", f"{tag}.random({n}, seed={seed})", lambda: cop.random(n, seed=seed) if k % 2 else cop.random(n, seed), u=mat(u), names=[])
    if k % 2 == 0:    # the reported parameters rebuild an equivalent copula
        P = cop.params
        again, e = s.run("rebuild", lambda: MarginalCopula(make(fam, d, flat(P["copula"]) if fam != "indep" else par), P["marginals"]))
        if e is not None: s.ev("cdf", f"{tag} rebuilt from its parameters", lambda: (_ for _ in ()).throw(e), at=[], log=False)
        else: evaluate(f"{tag} rebuilt", again, D, k // 2)
    if fitdata is not None:
        X, truth, method = fitdata
        names = ["q", "a", "m", "b"][:d] if k % 2 else []
        data = pd.DataFrame(X, columns=names) if names else X
        inner = make(fam, d, par)
        _, e1 = s.run("inner fit", lambda: inner.fit(np.asarray(X), method=method, verbose=0))
        s.ev("refuse", f"{tag}.fit(wrong dimension)", lambda: cop.fit(X[:, :-1], verbose=0), what="wrong_dimension"); look(tag + " after a refused fit")
        if fam != "indep": s.ev("refuse", f"{tag}.fit(unknown method)", lambda: cop.fit(X, method="moments", verbose=0), what="unknown_method"); look(tag + " after a refused fit")
        v, e = s.run(f"{tag}.fit", lambda: cop.fit(data, method=method, verbose=0))
        if e1 is not None: return
        try: now, ms = (flat(cop.params["copula"]) if fam != "indep" else []), margins(cop)
        except Exception: now, ms = [], []
        if any(np.isnan(now)) or any(np.isnan(flat(inner.params) if fam != "indep" else [])): return
        s.note("fit", f"{tag}.fit({len(X)} rows, {method})", res=enc(e) if e is not None else dict(EMPTY, k="ok"), rows=mat(X), par=fl(now), inner=fl(flat(inner.params) if fam != "indep" else []), margins=ms, truth=[fl(t) for t in truth])
        if e is not None: return
        look(tag + " after fit")
        D2 = [getattr(stats, m["type"])(*[unf(v) for v in m["par"]]) for m in ms]
        evaluate(tag + " after fit", cop, D2, k + 1)
        u, e = s.run("inner draw", lambda: inner.random(4, 5))
        if e is None: s.ev("draw", f"{tag} after fit.random(4, 5)", lambda: cop.random(4, 5), u=mat(np.asarray(u)), names=names)

def pars_for(t, k):
    p = []
    if t in SHAPES: p.append([SHAPES[t][0], f([1.5, 2.5, 4., 7.][k % 4])])
    if k % 3: p.append(["loc", f(round(float(rng.normal()), 2))])
    if k % 2: p.append(["scale", f(round(float(rng.uniform(.5, 3)), 2))])
    rng.shuffle(p)
    return p
def element(t, k):
    form = ["dict", "object"][k % 2]
    return dict(form=form, type=t, pars=pars_for(t, k))

FAMS = ["gaussian", "clayton", "frank", "gumbel", "indep", "student"]
def inner_par(fam, d):
    while True:
        p = rand_par(rng, fam, d)
        if fam in ARCH and (abs(p[0]) > 6 or (fam == "clayton" and p[0] < 0)): continue
        return p
for k, g in enumerate(a.gen_data):
    fam = FAMS[k % 6]; k += a.seed
    g = json.loads(json.dumps(g))
    for e in [g["one"]] if g["kind"] == "all" else g["list"]:
        if e["form"] in ("dict", "object") and k % 3 == 0 and e["type"] in TYPES: e["pars"] = pars_for(e["type"], k)
        if e["form"] == "dict" and e["type"] in ("t", "student"): e["pars"] = pars_for("t", k)
    run(f"description {k}", fam, 2, inner_par(fam, 2), g, k)
for k in range(240 if a.thorough else 40):
    fam = FAMS[k % 6]; d = [2, 3, 2, 4][k % 4] if not (fam == "gaussian") else [2, 3][k % 2]
    par = inner_par(fam, d)
    fit = k % 2 == 0
    types = [(FITTABLE if fit else TYPES)[rng.randint(len(FITTABLE if fit else TYPES))] for _ in range(d)]
    if k % 7 == 3: desc = dict(kind="all", one=element(types[0], k)); types = types[:1] * d
    else: desc = dict(kind="each", list=[element(t, k + j) for j, t in enumerate(types)])
    fd = None
    if fit:
        n = 60
        truth = [[float(rng.normal()), float(rng.uniform(.5, 2))] for _ in types]
        base = make(fam, d, par if fam not in ARCH else [abs(par[0]) + (2. if fam != "gumbel" else 1.)])
        U, e = base.random(n, 7 + k), None
        X = np.column_stack([getattr(stats, t)(*truth[j]).ppf(np.clip(np.asarray(U)[:, j], 1e-6, 1 - 1e-6)) for j, t in enumerate(types)])
        fd = (X, truth, "itau" if fam in ("clayton", "frank", "gumbel", "gaussian") and k % 4 == 0 else "ml")
    run(f"random {k}", fam, d, par, desc, k, fd)
tr.save()
