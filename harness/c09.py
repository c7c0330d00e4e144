"""C09: estimators."""
from hx import *
from cops import *
from scipy.stats import rankdata, norm, t as tdist

a = parse(); rng = a.rng; tr = Trace(a.out)
TIES = ["average", "min", "max", "dense", "ordinal"]

def par_of(cop):
    p = cop.params
    return [float(p.df), *map(float, p.rho)] if hasattr(p, "df") else [float(v) for v in np.ravel(p)]

def pobs(X, ties): return np.column_stack([rankdata(X[:, j], ties) for j in range(X.shape[1])]) / (len(X) + 1)

def fit(s, op, fam, d, cop, X, kw, small=False, true=None, start=None, form="arr", df0=0.):
    X = np.asarray(X, float)
    topobs, ties = kw.get("to_pobs", True), kw.get("ties", "average")
    arg = {"arr": X, "df": pd.DataFrame(X, columns=[f"c{j}" for j in range(d)]), "list": X.tolist(), "F": np.asfortranarray(X)}[form]
    key = f"{fam}(dim={d}).fit({form}{X.shape}, {', '.join(f'{k}={v}' for k, v in kw.items() if k != 'x0')})"
    _, e = s.run(key, lambda: cop.fit(arg, verbose=0, **kw))
    conv = True
    if e is None:
        r = cop.summary("fit").results
        if isinstance(r, dict) and "success" in r: conv = bool(r["success"])
    s.note(op, key, res=enc(e), fam=fam, d=d, rows=mat(X) if small or op == "inversion" else [], ties=ties, topobs=topobs, method=kw.get("method", "ml").lower(),
           par=fl(par_of(cop)), df0=f(df0), fixdf=bool(kw.get("fix_df", False)), converged=conv, small=small, start=fl(start) if start is not None else [],
           true=fl(true) if true is not None else [])

def new(fam, d, df=None):
    return CLS[fam](dim=d, df=df) if fam == "student" and df is not None else make(fam, d)

# every enumerated pattern, inverted by every family in turn
FAMS = ["clayton", "gaussian", "frank", "student", "gumbel"]
sess = {}
for k, g in enumerate(a.gen_data):
    for fam in ([FAMS[k % 5], FAMS[(k // 5 + 1) % 5]] if not a.thorough or k % 3 else FAMS):
        key = (fam, k % 16)
        if key not in sess: sess[key] = tr.session(f"patterns {fam}")
        lev = np.sort(rng.normal(size=(2, 4)), axis=1)
        X = np.column_stack([lev[0][np.array(g["x"]) - 1], lev[1][np.array(g["y"]) - 1]])
        X = X[rng.permutation(len(X))]
        df0 = float(rng.choice([1, 3, 6.5]))
        method = "itau" if fam != "gaussian" or rng.rand() < .5 else "irho"
        fit(sess[key], "inversion", fam, 2, new(fam, 2, df0), X, dict(method=method, ties=TIES[k % 5]), form=["arr", "df", "list", "F"][k % 4], df0=df0)

# more columns, on a copula that already holds something else
for rep in range(60 if a.thorough else 12):
    for fam in FAMS:
        d = int(rng.choice([2, 3, 4, 5]))
        s = tr.session(f"inversion {fam} d={d}")
        df0 = float(rng.choice([2, 5.5]))
        cop = new(fam, d, df0)
        for it in range(2):
            n = int(rng.randint(d, 14))
            X = rng.normal(size=(n, d)) + rng.choice([.6, 1.5]) * rng.normal(size=(n, 1))
            if rep % 3 == 0: X = np.round(X)
            if rep % 4 == 1 and fam in ("gaussian", "student"): X[:, 0] = -X[:, 0]
            if rep % 5 == 2 and (d == 2) : X[:, 0] = -X[:, 0]
            method = "itau" if fam != "gaussian" or rng.rand() < .5 else "irho"
            fit(s, "inversion", fam, d, cop, X, dict(method=[method, method.upper()][it], ties=TIES[rng.randint(5)]), form=["arr", "df"][it], df0=df0)
            U = pobs(X, "average")
            fit(s, "inversion", fam, d, cop, U, dict(method=method, to_pobs=False), df0=df0)

def draw(fam, d, par, n):
    """samples from the family, independently of the library"""
    if fam == "clayton" and par[0] > 0:
        return (1 + rng.exponential(size=(n, d)) / rng.gamma(1 / par[0], size=(n, 1))) ** (-1 / par[0])
    if fam == "clayton":
        u, w = rng.uniform(size=(2, n)); t = par[0]
        return np.column_stack([u, (u ** -t * (w ** (-t / (1 + t)) - 1) + 1) ** (-1 / t)])
    if fam == "frank" and d == 2:
        u, w = rng.uniform(size=(2, n)); t = par[0]
        return np.column_stack([u, -np.log1p(w * np.expm1(-t) / (w + (1 - w) * np.exp(-t * u))) / t])
    if fam == "frank":
        v = rng.logseries(-np.expm1(-par[0]), size=(n, 1))
        return -np.log1p(np.exp(-rng.exponential(size=(n, d)) / v) * np.expm1(-par[0])) / par[0]
    if fam == "gumbel":
        al = 1 / par[0]; th = rng.uniform(0, np.pi, (n, 1)); w = rng.exponential(size=(n, 1))
        st = np.sin(al * th) / np.sin(th) ** (1 / al) * (np.sin((1 - al) * th) / w) ** ((1 - al) / al)
        return np.exp(-(rng.exponential(size=(n, d)) / st) ** al)
    rho = par if fam == "gaussian" else par[1:]
    R = np.eye(d); R[np.tril_indices(d, -1)] = 0
    k = 0
    for i in range(d):
        for j in range(i + 1, d): R[i, j] = R[j, i] = rho[k]; k += 1
    z = rng.normal(size=(n, d)) @ np.linalg.cholesky(R).T
    if fam == "gaussian": return norm.cdf(z)
    return tdist.cdf(z / np.sqrt(rng.chisquare(par[0], (n, 1)) / par[0]), par[0])

OPTS = [None, {}, {"options": {"maxiter": 800}}, {"method": "SLSQP"}, {"method": "Nelder-Mead", "options": {"maxiter": 1500}}]
CFG = [("clayton", 2, [2.]), ("clayton", 2, [-.35]), ("clayton", 3, [.8]), ("frank", 2, [6.]), ("frank", 2, [-4.]), ("frank", 3, [3.]), ("gumbel", 2, [1.8]), ("gumbel", 3, [2.5]),
       ("gaussian", 2, [-.5]), ("gaussian", 3, [.6, -.3, .2]), ("student", 2, [4., .5]), ("student", 3, [6., .4, .2, -.3])]
for rep in range(4 if a.thorough else 1):
    for ci, (fam, d, true) in enumerate(CFG):
        for it in range(3 if fam != "student" else 1):
            s = tr.session(f"ml {fam} d={d}")
            cop = new(fam, d)
            if it == 1 and fam != "student": assign(cop, fam, true)
            n = 30 if fam != "student" else 24
            X = draw(fam, d, true, n)
            if it == 2: X = np.round(norm.ppf(np.clip(X, .001, .999)), 1)
            kw = dict(method="ml", ties=TIES[(ci + it) % 3], scale=[1., 20., .5][(ci + it + rep) % 3])
            if fam in ARCH: kw["optim_options"] = OPTS[(ci + it + rep) % 3]
            elif (ci + it) % 2: kw["optim_options"] = {"options": {"maxiter": 1000}}
            start = None
            if (ci + it + rep) % 2:     # a start supplied by the caller
                start = [v * .7 if v < 1 or fam != "gumbel" else 1 + (v - 1) * .6 for v in true]
                kw["x0"] = start if fam not in ARCH or it else np.array(start)
            if it == 1 and fam not in ("student",): X, kw["to_pobs"] = np.clip(X, 1e-3, 1 - 1e-3), False; kw.pop("ties")
            fit(s, "ml", fam, d, cop, X, kw, small=True, start=start)
    for ci, (fam, d, true) in enumerate(CFG):
        for method in (["ml", "itau"] if fam not in ("gaussian",) else ["ml", "itau", "irho"]):
            s = tr.session(f"recover {fam} d={d} {method}")
            for attempt in range(3):     # the optimiser may stall on one sample; not on every one
                fit(s, "recover", fam, d, new(fam, d, 4. if fam == "student" else None), draw(fam, d, true, 500), dict(method=method), true=true if method == "ml" or fam != "student" else [4.] + true[1:])
                last = s.s["events"][-1]
                if last["converged"] or last["res"]["k"] == "exc" or attempt == 2: break
                s.s["events"].pop()
    # every optimiser the estimator knows by name
    for k, opt in enumerate(["Nelder-Mead", "BFGS", "SLSQP", "COBYLA", "trust-constr", "nelder-mead", "Trust-Constr"]):
        for fam, d, true in CFG[:10]:
            if (k + CFG.index((fam, d, true)) + rep + a.seed) % 3 and not a.thorough: continue
            s = tr.session(f"optimiser {opt} {fam} d={d}")
            o = {"method": opt}
            if k % 2: o["options"] = {"maxiter": 400}
            fit(s, "ml", fam, d, new(fam, d), draw(fam, d, true, 30), dict(method="ml", optim_options=o),
                small=opt.lower() == "nelder-mead" or fam != "clayton" or true[0] > 0)     # the others stall on the edge of a restricted support
    # fixed degrees of freedom, with and without options
    for k, opts in enumerate([None, {}, {"options": {"maxiter": 500}}, {"method": "SLSQP"}, {"constraints": []}, {"constraints": {"type": "ineq", "fun": lambda x: 1 - x[1]}}, {"method": "SLSQP", "options": {"ftol": 1e-7}}]):
        d = 2 + k % 2
        df0 = [3., 4, 7.5][k % 3]
        s = tr.session(f"fixed df {k}")
        true = [5.] + ([.5] if d == 2 else [.4, .2, -.3])
        kw = dict(fix_df=True)
        if opts is not None: kw["optim_options"] = opts
        cop = new("student", d, df0)
        fit(s, "ml", "student", d, cop, draw("student", d, true, 24), kw, small=k < 3, df0=df0)
        fit(s, "ml", "student", d, cop, draw("student", d, true, 40), dict(kw, x0=np.array([8.] + true[1:])), df0=df0)
        fit(s, "inversion", "student", d, cop, draw("student", d, true, 12), dict(method="itau", fix_df=True), df0=par_of(cop)[0])
# larger samples: every row counts
for k, (fam, d, true) in enumerate([CFG[i] for i in (0, 3, 6, 8, 9, 5)]):
    s = tr.session(f"larger {fam} d={d}")
    U = draw(fam, d, true, 260); V = draw(fam, d, [v if fam == "gaussian" else v * 1.4 for v in true], 260)
    X = np.r_[V[:20], U[:150], V[20:]]       # no part of it speaks for the rest
    fit(s, "inversion", fam, d, new(fam, d), X[:230], dict(method="itau" if k % 2 or fam != "gaussian" else "irho", to_pobs=False))
    if d == 2: fit(s, "ml", fam, d, new(fam, d), np.clip(X, 1e-3, 1 - 1e-3), dict(method="ml", to_pobs=False), small=True)
tr.save()
