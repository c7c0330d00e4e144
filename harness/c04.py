"""C04: logarithm options and log-likelihood."""
from hx import *
from cops import *
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula
from copulae.core import pseudo_obs
from scipy.stats import rankdata

a = parse(); rng = a.rng; tr = Trace(a.out)
TIES = ["average", "min", "max", "dense", "ordinal"]

def ranks(X, ties):     # pseudo-observations, recomputed here and checked by the specification
    X = np.asarray(X, float)
    return np.column_stack([rankdata(X[:, j], ties) for j in range(X.shape[1])]) / (len(X) + 1)

def setp(s, cop, fam, par):
    s.ev("params", f"{fam} params={par}", lambda: assign(cop, fam, par), par=fl(par) if par else [])

def pair(s, fam, d, meth, cop, arg, tag, **kw):
    fn = getattr(cop, meth)
    v, e = s.run(f"{fam}.{meth}({tag})", lambda: fn(arg, **kw))
    plain = enc(e if e is not None else v)
    if meth in ("cdf", "pdf", "ipsi"):
        s.ev("pair", f"{fam}(dim={d}).{meth}({tag}, True)", lambda: fn(arg, True), fam=fam, d=d, meth=meth, plain=plain)
    s.ev("pair", f"{fam}(dim={d}).{meth}({tag}, log=True{kw})", lambda: fn(arg, log=True, **kw), fam=fam, d=d, meth=meth, plain=plain)

def loglik(s, fam, d, cop, X, ties, topobs, form="arr", reorder=True):
    X = np.asarray(X, float)
    pts = ranks(X, ties) if topobs else X
    v, e = s.run("pdf log", lambda: cop.pdf(np.array(pts), log=True))
    lp = enc(e if e is not None else np.ravel(v))
    arg = {"arr": X, "df": pd.DataFrame(X, columns=[f"v{i}" for i in range(d)]), "list": X.tolist(), "F": np.asfortranarray(X)}[form]
    if form == "list" and not topobs: arg = X
    if topobs and ties == "average" and rng.rand() < .4: call = lambda x: cop.log_lik(x)
    elif topobs: call = lambda x: cop.log_lik(x, ties=ties)
    else: call = lambda x: cop.log_lik(x, to_pobs=False)
    s.ev("loglik", f"{fam}(dim={d}).log_lik({form}{X.shape}, ties={ties}, to_pobs={topobs})", lambda: call(arg),
         fam=fam, d=d, rows=mat(X), pts=mat(pts), ties=ties, topobs=topobs, lp=lp)
    first = s.s["events"][-1]["res"]
    if reorder and len(X) > 1 and first["k"] == "num" and np.isfinite(cop.log_lik(X, to_pobs=topobs, ties=ties)) and (ties != "ordinal" or not topobs):
        p = rng.permutation(len(X))
        s.ev("reordered", f"{fam}(dim={d}).log_lik(rows reordered, ties={ties})", lambda: call(X[p]), first=first)

def objects(d):
    """all copulas with a density, by family name"""
    for fam in ("clayton", "frank", "gumbel", "gaussian", "student", "indep"):
        yield fam, (lambda fam=fam: make(fam, d))

def gmc(d, k=2):
    cov = [np.array(make_cov(d)) for _ in range(k)]
    w = rng.dirichlet(np.ones(k) * 3)
    g = GaussianMixtureCopula(k, d)
    g.params = dict(prob=w, means=rng.normal(.5, .4, (k, d)), covs=np.array(cov))
    return g

def make_cov(d):
    A = rng.normal(size=(d, d + 2)); return A @ A.T / (d + 2) * .2

def marginal(inner, d):
    m = [{"type": "norm", "parameters": {"loc": .3, "scale": 1.2}}, {"type": "expon", "parameters": {"scale": .8}}, {"type": "logistic"}, "uniform"]
    return MarginalCopula(inner, [m[(i + 1) % 4] for i in range(d)])

# design-model tables, every tie rule, round robin over the families
fams = ["clayton", "frank", "gumbel", "gaussian", "student", "indep"]
sess = {}
for k, g in enumerate(a.gen_data):
    fam = fams[k % 6]
    if fam not in sess:
        s = tr.session(f"patterns {fam}"); cop = make(fam, 2)
        par = {"clayton": [1.7], "frank": [-4.], "gumbel": [2.2], "gaussian": [.55], "student": [5., -.4]}.get(fam)
        if par: setp(s, cop, fam, par)
        sess[fam] = (s, cop)
    s, cop = sess[fam]
    lev = np.sort(rng.normal(size=(3, 2)), axis=0)
    X = np.array([[lev[r[j] - 1, j] for j in range(2)] for r in g["data"]])
    loglik(s, fam, 2, cop, X, g["ties"], True, ["arr", "df", "list", "F"][k % 4], reorder=k % 3 == 0)

for rep in range(5 if a.thorough else 1):
    for fam in fams:
        for d in (2, 3, 5):
            s = tr.session(f"log options {fam} d={d}")
            cop = make(fam, d)
            for it in range(4):
                par = rand_par(rng, fam, d, weak=it == 2)
                if it == 3: par = {"clayton": [0.], "frank": [0.], "gumbel": [1.], "gaussian": [0.] * len(par), "student": par[:1] + [0.] * (len(par) - 1)}.get(fam, par)   # independence
                if fam != "indep": setp(s, cop, fam, par)
                U = rng.uniform(.02, .98, (6, d))
                forms = [("matrix", U), ("row", U[0]), ("table", pd.DataFrame(U, columns=list("abcde")[:d]))]
                for tag, arg in forms:
                    if fam != "student" and not (fam == "gaussian" and d > 3): pair(s, fam, d, "cdf", cop, arg, tag)
                    pair(s, fam, d, "pdf", cop, arg, tag)
                if fam in ARCH:
                    E = U.copy(); E[0] = 1.; E[1, 0] = 1.; E[2, 0] = 0.; E[3] = 0.
                    pair(s, fam, d, "cdf", cop, E, "faces")
                    x = rng.uniform(.01, .99, 7)
                    for tag, arg in (("vector", x), ("scalar", float(x[0])), ("matrix", x[:6].reshape(2, 3))):
                        pair(s, fam, d, "ipsi", cop, arg, tag)
                        for deg in (1, 2): pair(s, fam, d, "dipsi", cop, arg, tag, degree=deg)
                elif fam == "indep":
                    E = U.copy(); E[0] = 1.; E[2, 0] = 0.
                    pair(s, fam, d, "cdf", cop, E, "faces")
                # log-likelihood with ties, under every rule, and of uniform data as given
                n = int(rng.randint(1, 9))
                X = np.round(rng.normal(size=(n, d)) + rng.normal(size=(n, 1)), 1 if it else 0)
                for ties in TIES: loglik(s, fam, d, cop, X, ties, True, ["arr", "df", "list"][it % 3])
                Z = rng.uniform(.01, .99, (n, d))
                loglik(s, fam, d, cop, Z, "average", False, ["arr", "df", "F"][it % 3])
                if it < 3:      # many rows: the same ones over and over
                    one = s.s["events"][-1] if s.s["events"][-1]["op"] == "loglik" else s.s["events"][-2]
                    k = [int(20000 // n) + 1, int(3000 // n) + 1, int(600 // n) + 1][it]
                    s.ev("tiled", f"{fam}(dim={d}).log_lik({n * k} rows)", lambda: cop.log_lik(np.tile(Z, (k, 1)), to_pobs=False), first=one["res"], times=k)
            if fam in ("gaussian", "student") and d > 2:   # vectors that are no correlation matrix, then a valid one again
                bad = [-.9] * (d * (d - 1) // 2)
                setp(s, cop, fam, ([4.] if fam == "student" else []) + bad)
                X = rng.normal(size=(6, d))
                for ties in TIES[:2]: loglik(s, fam, d, cop, X, ties, True)
                loglik(s, fam, d, cop, rng.uniform(.1, .9, (5, d)), "average", False)
                setp(s, cop, fam, ([4.] if fam == "student" else []) + [.3] * len(bad))
                loglik(s, fam, d, cop, X, "average", True)
    for d in (2, 3):
        for k in (1, 2, 3):
            s = tr.session(f"mixture d={d} k={k}")
            g = gmc(d, k)
            U = rng.uniform(-.5, 1.5, (5, d))
            for tag, arg in (("matrix", U), ("row", U[0]), ("table", pd.DataFrame(U))):
                pair(s, "gmc", d, "cdf", g, arg, tag); pair(s, "gmc", d, "pdf", g, arg, tag)
            X = np.round(rng.normal(size=(7, d)), 1)
            for ties in TIES: loglik(s, "gmc", d, g, X, ties, True)
            loglik(s, "gmc", d, g, X, "average", False)
    for fam in fams:
        d = 2 + rng.randint(2)
        s = tr.session(f"marginal {fam} d={d}")
        m = marginal(make(fam, d, rand_par(rng, fam, d)), d)
        U = np.abs(rng.uniform(.05, .95, (5, d)))
        for tag, arg in (("matrix", U), ("row", U[0]), ("table", pd.DataFrame(U))):
            if fam != "student": pair(s, "marginal_" + fam, d, "cdf", m, arg, tag)
            pair(s, "marginal_" + fam, d, "pdf", m, arg, tag)
        X = np.round(rng.uniform(.05, .95, (6, d)), 1)
        for ties in TIES[:3]: loglik(s, "marginal_" + fam, d, m, X, ties, True)
        loglik(s, "marginal_" + fam, d, m, X, "average", False)
    for d in (2, 3):
        s = tr.session(f"empirical d={d}")
        for smoothing in ("beta", "none", "checkerboard"):
            for ties in TIES:
                D = np.round(rng.normal(size=(8, d)), 1)
                e = EmpiricalCopula(D if rng.rand() < .5 else pd.DataFrame(D, columns=list("abc")[:d]), smoothing=smoothing, ties=ties, offset=float(rng.choice([0, 1, .5])))
                U = rng.uniform(0, 1, (5, d)); U[0] = 0; U[1, 0] = 1; U[2] = 1
                pair(s, "empirical", d, "cdf", e, U, "matrix"); pair(s, "empirical", d, "cdf", e, U[3], "row")
                if smoothing == "beta":
                    pair(s, "empirical", d, "pdf", e, U, "matrix"); pair(s, "empirical", d, "pdf", e, U[3], "row")
                    for t2 in TIES[:2]: loglik(s, "empirical", d, e, rng.normal(size=(5, d)).round(1), t2, True)
                    loglik(s, "empirical", d, e, rng.uniform(.1, .9, (4, d)), "average", False)
tr.save()
