"""C12: nothing the caller passed in is modified."""
from hx import *
from cops import *
import hashlib, copy
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula, pseudo_obs
from copulae.mixtures.gmc.parameter import GMCParam
from copulae.mixtures.gmc.estimators import expectation_maximization, gradient_descent, k_means
from copulae.mixtures.gmc import loglik, marginals
from copulae.elliptical.student import StudentParams
from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
from copulae.archimedean.auxiliary import dsum_sibuya
from copulae.marginal.univariate import create_univariate
from copulae.empirical.distribution import emp_dist_func
from copulae.gof import exch_test, rad_sym_test, gof_copula
from copulae.special import special_func as sf, combinatorics as cb, trig
from copulae.special import optimize, clausen as cl, debye as db, dilog as dl
from copulae.utility.dict import merge_dict, merge_dicts
from copulae import core, stats

a = parse(); rng = a.rng; tr = Trace(a.out)

def digest(x, h=None):
    top = h is None
    if top: h = hashlib.sha1()
    if isinstance(x, pd.DataFrame):
        h.update(b"DF"); digest([str(c) for c in x.columns], h); digest([str(c) for c in x.index], h)
        h.update(repr([str(t) for t in x.dtypes]).encode())
        for k in range(x.shape[1]): h.update(np.ascontiguousarray(x.iloc[:, k].to_numpy()).tobytes())
    elif isinstance(x, pd.Series):
        h.update(b"SR"); digest([str(c) for c in x.index], h); h.update((str(x.dtype) + str(x.name)).encode()); h.update(np.ascontiguousarray(x.to_numpy()).tobytes())
    elif isinstance(x, np.ndarray):
        h.update(f"A{x.dtype}{x.shape}{x.strides}{x.flags.writeable}".encode()); h.update(np.ascontiguousarray(x).tobytes())
        if x.base is not None and isinstance(x.base, np.ndarray): h.update(np.ascontiguousarray(x.base).tobytes())
    elif isinstance(x, dict):
        h.update(b"D")
        for k in x: h.update(repr(k).encode()); digest(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + str(len(x)).encode())
        for v in x: digest(v, h)
    elif isinstance(x, GMCParam):
        h.update(f"P{x.n_clusters},{x.n_dim}".encode())
        for v in (x.prob, x.means, x.covs): digest(v, h)
    elif callable(x): h.update(b"C")
    else: h.update(repr(x).encode())
    return h.hexdigest()[:16] if top else None

VARIANTS = ["C", "F", "strided", "df", "list", "series", "readonly", "ints"]
def variant(x, kind):
    """the same numbers in another container; None if this container does not fit"""
    if not isinstance(x, np.ndarray):
        return copy.deepcopy(x) if kind == "C" else None
    if kind == "C": return x.copy()
    if kind == "F": return np.asfortranarray(x) if x.ndim > 1 else None
    if kind == "strided":
        if x.ndim == 0: return None
        y = x
        for ax in range(x.ndim): y = np.repeat(y, 2, ax)
        return y[tuple(slice(None, None, 2) for _ in range(x.ndim))]
    if kind == "df": return pd.DataFrame(x.copy(), columns=list("pqrst")[:x.shape[1]]) if x.ndim == 2 and x.shape[1] <= 5 else None
    if kind == "series": return pd.Series(x.copy()) if x.ndim == 1 else None
    if kind == "list": return x.tolist()
    if kind == "readonly":
        y = x.copy(); y.flags.writeable = False; return y
    if kind == "ints": return x.astype(int) if x.dtype.kind == "f" and np.all(x == np.round(x)) else None

# ---- single calls, every argument in every container ----
def calls():
    """(name, fn, arguments): fn gets the arguments in the given containers"""
    out = []
    def add(name, fn, *args): out.append((name, fn, args))
    for fam in ("clayton", "frank", "gumbel", "gaussian", "student", "indep"):
        for d in (2, 3):
            pars = [rand_par(rng, fam, d)] if fam not in ARCH else [[.8], [4.]] if fam != "gumbel" else [[1.], [2.5]]
            if fam in ("clayton", "frank"): pars.append([0.])
            if fam in ("clayton", "frank") and d == 2: pars.append([-.6])
            for par in pars:
                c = make(fam, d, par)
                U = rng.uniform(.05, .95, (6, d)); U[0, 0] = 1.; U[1, 1] = 0.
                I = rng.uniform(.05, .95, (6, d))
                X = rng.normal(size=(25, d)) + 1.5 * rng.normal(size=(25, 1))
                tag = f"{fam}(dim={d}, {np.round(par, 3).tolist()})"
                if fam != "student":
                    add(f"{tag}.cdf", lambda x, c=c: c.cdf(x), U); add(f"{tag}.cdf log", lambda x, c=c: c.cdf(x, log=True), I); add(f"{tag}.cdf vector", lambda x, c=c: c.cdf(x), I[0])
                    add(f"{tag}.cdf keyword", lambda x, c=c: c.cdf(**{list(__import__("inspect").signature(c.cdf).parameters)[0]: x}), I)
                add(f"{tag}.pdf", lambda x, c=c: c.pdf(x), I); add(f"{tag}.pdf log", lambda x, c=c: c.pdf(x, log=True), I); add(f"{tag}.pdf vector", lambda x, c=c: c.pdf(x), I[0])
                add(f"{tag}.pdf faces", lambda x, c=c: c.pdf(x), U)
                add(f"{tag}.log_lik", lambda x, c=c: c.log_lik(x), X); add(f"{tag}.log_lik asis", lambda x, c=c: c.log_lik(x, to_pobs=False), I)
                add(f"{tag}.log_lik max", lambda x, c=c: c.log_lik(x, ties="max"), np.round(X))
                add(f"{tag}.pobs", lambda x, c=c: c.pobs(x), X)
                if fam in ARCH:
                    s = np.array([0., .2, 1., 5.]); u = np.array([.1, .5, .9, 1.])
                    for nm, arg in (("psi", s), ("ipsi", u), ("dipsi", u)):
                        add(f"{tag}.{nm}", lambda x, c=c, nm=nm: getattr(c, nm)(x), arg); add(f"{tag}.{nm} matrix", lambda x, c=c, nm=nm: getattr(c, nm)(x), np.column_stack([arg, arg])[:, :2])
                    add(f"{tag}.dipsi 2", lambda x, c=c: c.dipsi(x, 2), u); add(f"{tag}.dipsi log", lambda x, c=c: c.dipsi(x, log=True), u); add(f"{tag}.ipsi log", lambda x, c=c: c.ipsi(x, log=True), u)
                if fam == "gumbel":
                    w = np.array([0., .2, .5, 1.]); add(f"{tag}.A", lambda x, c=c: c.A(x), w); add(f"{tag}.dAdu", lambda x, c=c: c.dAdu(x), w[1:3])
                t = np.array([.1, .4, .7])
                for nm in ("itau", "irho", "dtau", "drho"):
                    if fam == "indep" or (nm == "irho" and fam in ("clayton", "gumbel", "student")) or (nm == "drho" and fam == "clayton"): continue
                    arg = t if nm[0] == "i" or fam in ("gaussian", "student") else t + 1.2
                    add(f"{tag}.{nm}", lambda x, c=c, nm=nm: getattr(c, nm)(x), arg)
                    if fam in ("gaussian", "student"): add(f"{tag}.{nm} matrix", lambda x, c=c, nm=nm: getattr(c, nm)(x), np.array([[1., .3], [.3, 1.]]) * .9)
                if fam in ("gaussian", "student"):
                    add(f"{tag}.params=", lambda p, c=c: setattr(c, "params", p), np.array(par))
                    full = np.array(c.sigma)
                    add(f"{tag}[:, :]=", lambda m, c=c: c.__setitem__((slice(None), slice(None)), m), full); add(f"{tag}[:]=", lambda m, c=c: c.__setitem__(slice(None), m), full)
                    bad = np.full((d, d), -.9); np.fill_diagonal(bad, 1.)
                    add(f"{tag}[:, :]= repaired", lambda m, c=make(fam, d): c.__setitem__((slice(None), slice(None)), m), bad)
                    add(f"{tag}[0, :]=", lambda v, c=make(fam, d): c.__setitem__((0, slice(None)), v), np.array([1., .4, .3])[:d])
                    add(f"{tag}[:, 1]=", lambda v, c=make(fam, d): c.__setitem__((slice(None), 1), v), np.array([.4, 1., .3])[:d])
                if fam == "student": add(f"{tag}.params=named", lambda r, c=c: setattr(c, "params", StudentParams(4, r)), np.array(par[1:]))
                if fam != "indep":
                    for m in ["itau", "ml"] + (["irho"] if fam == "gaussian" else []):
                        if m == "ml" and (d == 3 and fam == "student" or par != pars[0]): continue
                        add(f"{tag}.fit {m}", lambda x, m=m, fam=fam, d=d: make(fam, d).fit(x, method=m, verbose=0), X)
                        add(f"{tag}.fit {m} asis", lambda x, m=m, fam=fam, d=d: make(fam, d).fit(x, method=m, verbose=0, to_pobs=False), np.asarray(pseudo_obs(X)))
                    if par == pars[0]:
                        x0 = np.array(par); opts = {"options": {"maxiter": 40, "disp": False}, "method": "SLSQP"}
                        # the starting point is given as one array: a view of it may reach the copula
                        add(f"{tag}.fit x0 options", lambda x, p, o, fam=fam, d=d: make(fam, d).fit(x, x0=p, optim_options=o, verbose=0), X, x0, opts)
                        add(f"{tag}.fit nested options", lambda x, o, fam=fam, d=d: make(fam, d).fit(x, optim_options=o, verbose=0), X, {"options": {"maxiter": 30}})
                        if fam == "student":
                            for o in ({}, {"constraints": []}, {"constraints": {"type": "ineq", "fun": abs}}, {"options": {"maxiter": 30}, "constraints": [{"type": "ineq", "fun": abs}]}, {"bounds": [(1, 30)] * (len(par))}):
                                add(f"{tag}.fit fix_df {sorted(o)}", lambda x, o, d=d: make("student", d).fit(x, fix_df=True, optim_options=o, verbose=0), X, o)
    for sm in ("none", "beta", "checkerboard"):
        D = rng.normal(size=(8, 2)); U = rng.uniform(size=(5, 2))
        add(f"EmpiricalCopula({sm})", lambda x, sm=sm: EmpiricalCopula(x, smoothing=sm).cdf([.3, .4]), D)
        for cont in ("C", "df"):
            e = EmpiricalCopula(variant(D, cont), smoothing=sm)
            add(f"EmpiricalCopula({sm}, {cont}).cdf", lambda x, e=e: e.cdf(x), U)
            if sm == "beta": add(f"EmpiricalCopula({cont}).pdf", lambda x, e=e: e.pdf(x), U)
        add(f"emp_dist_func {sm}", lambda x, y, sm=sm: emp_dist_func(x, y, sm), U, np.asarray(pseudo_obs(D)))
    add("EmpiricalCopula.random", lambda x: EmpiricalCopula(x).random(4, seed=1), rng.normal(size=(8, 2)))
    add("EmpiricalCopula.to_marginals", lambda u, x: EmpiricalCopula.to_marginals(u, x), rng.uniform(size=(4, 2)), rng.normal(size=(9, 2)))
    # margins
    for desc in ([{"type": "norm", "parameters": {"loc": 1., "scale": 2.}}, {"type": "gamma", "parameters": {"a": 2.}}], {"type": "norm", "parameters": {"scale": 3.}}, ["norm", "logistic"], [{"type": "t", "parameters": {"df": 4}}, "normal"]):
        add(f"MarginalCopula({desc})", lambda m: MarginalCopula(make("gaussian", 2), m), desc)
        add(f"MarginalCopula({desc}).fit", lambda m, x: MarginalCopula(make("gaussian", 2), m).fit(x, verbose=0, method="itau"), desc, np.abs(rng.normal(size=(20, 2)) + rng.normal(size=(20, 1))) + .1)
        mc = MarginalCopula(make("gaussian", 2), copy.deepcopy(desc))
        for nm in ("cdf", "pdf"): add(f"MarginalCopula({desc}).{nm}", lambda x, mc=mc, nm=nm: getattr(mc, nm)(x), rng.uniform(.2, 2, (5, 2)))
        if isinstance(desc, list) and isinstance(desc[0], dict): add(f"create_univariate({desc[0]})", create_univariate, desc[0])
    mc = MarginalCopula(make("gumbel", 2, [2.]), "norm")
    add("MarginalCopula.fit options", lambda x, o: MarginalCopula(make("clayton", 2), "norm").fit(x, verbose=0, optim_options=o), rng.normal(size=(20, 2)) + 2 * rng.normal(size=(20, 1)), {"options": {"maxiter": 30}})
    # mixtures
    for d in (2, 3):
        w = np.array([.4, .6]); m = np.vstack([np.zeros(d), np.ones(d) * 2]); S = np.array([np.eye(d), np.eye(d) * .5 + .2])
        add(f"GMCParam d={d}", lambda w, m, S, d=d: GMCParam(2, d, w, m, S), w, m, S)
        bad = S.copy(); bad[1] = .9; np.einsum("ii->i", bad[1])[:] = 1; bad[1][0, 1] = bad[1][1, 0] = .99 if d == 2 else -.2
        add(f"GMCParam repaired d={d}", lambda w, m, S, d=d: GMCParam(2, d, w, m, S), w, m, bad)
        P = GMCParam(2, d, w.copy(), m.copy(), S.copy())
        add(f"GMCParam.from_dict d={d}", GMCParam.from_dict, dict(prob=w, means=m, covs=S)); add(f"GMCParam.from_dict lists d={d}", GMCParam.from_dict, dict(prob=w.tolist(), means=m.tolist(), covs=S.tolist()))
        add(f"GMCParam.to_vector d={d}", lambda p: p.to_vector(), P); add(f"GMCParam.from_vector d={d}", lambda v, d=d: GMCParam.from_vector(v, 2, d), P.to_vector())
        add(f"GMCParam.to_vector extreme weights d={d}", lambda p: p.to_vector(), GMCParam(2, d, np.array([0., 1.]), m.copy(), S.copy()))
        add(f"GMCParam.means= d={d}", lambda p, d=d: setattr(GMCParam(2, d, [.5, .5], np.zeros((2, d)), [np.eye(d)] * 2), "means", p), m)
        add(f"GaussianMixtureCopula(params object) d={d}", lambda p, d=d: GaussianMixtureCopula(2, d, p).summary(), P)
        add(f"GaussianMixtureCopula(vector) d={d}", lambda v, d=d: GaussianMixtureCopula(2, d, v), P.to_vector())
        g = GaussianMixtureCopula(2, d, P)
        X = np.vstack([rng.normal(size=(15, d)), rng.normal(size=(15, d)) + 2.5])
        for nm in ("cdf", "pdf"): add(f"GMC.{nm} d={d}", lambda x, g=g, nm=nm: getattr(g, nm)(x), X[:4])
        add(f"GMC.log_lik d={d}", lambda x, g=g: g.log_lik(x, to_pobs=False), X)
        for crit in ("GMCM", "GMM", "Li"):
            add(f"GMC.fit x0 object {crit} d={d}", lambda x, p, d=d, crit=crit: GaussianMixtureCopula(2, d).fit(x, x0=p, max_iter=4, criteria=crit, verbose=0), X, P)
            add(f"expectation_maximization {crit} d={d}", lambda u, p, crit=crit: expectation_maximization(u, p, 4, crit, 0), np.asarray(pseudo_obs(X)), P)
        add(f"GMC.fit x0 vector d={d}", lambda x, v, d=d: GaussianMixtureCopula(2, d).fit(x, x0=v, max_iter=3, verbose=0), X, P.to_vector())
        add(f"GMC.fit x0 dict d={d}", lambda x, v, d=d: GaussianMixtureCopula(2, d).fit(x, x0=v, max_iter=3, verbose=0), X, dict(prob=w, means=m, covs=S))
        add(f"GMC.fit kmeans d={d}", lambda x, d=d: GaussianMixtureCopula(2, d).fit(x, method="kmeans", verbose=0), X)
        if d == 2:
            add("GMC.fit sgd options", lambda x, p, o: GaussianMixtureCopula(2, 2).fit(x, x0=p, method="sgd", optim_options=o, max_iter=2, verbose=0), X, P, {"options": {"maxiter": 2}})
            add("gradient_descent", lambda u, p: gradient_descent(u, p, max_iter=2), np.asarray(pseudo_obs(X)), P)
        add(f"k_means d={d}", lambda x, d=d: k_means(x, 2, d), X)
        for fn in (loglik.gmm_log_likelihood, loglik.gmm_log_likelihood_marginals, loglik.gmcm_log_likelihood): add(f"{fn.__name__} d={d}", lambda x, p, fn=fn: fn(x, p), np.asarray(pseudo_obs(X)), P)
        for fn in (marginals.gmm_marginal_ppf, marginals.gmm_marginal_cdf): add(f"{fn.__name__} d={d}", lambda x, p, fn=fn: fn(x, p), np.asarray(pseudo_obs(X)), P)
    # core
    R = np.array([[1., .5, .2], [.5, 1., -.3], [.2, -.3, 1.]]); C = R * np.outer([1, 2, .5], [1, 2, .5])
    B = np.full((3, 3), -.8); np.fill_diagonal(B, 1.); XR = np.round(rng.normal(size=(9, 3)), 1)
    XM = XR.copy(); XM[2, 0] = np.nan; XM[5, 1] = np.nan
    for t in ("average", "min", "max", "dense", "ordinal"):
        add(f"pseudo_obs {t}", lambda x, t=t: pseudo_obs(x, t), XR); add(f"rank_data {t}", lambda x, t=t: core.rank_data(x, 0, t), XR); add(f"rank_data rows {t}", lambda x, t=t: core.rank_data(x, 1, t), XR)
        add(f"pseudo_obs vector {t}", lambda x, t=t: pseudo_obs(x, t), XR[:, 0].copy())
    add("pseudo_obs missing", pseudo_obs, XM)
    add("corr2cov", core.corr2cov, R, np.array([1., 2., .5])); add("cov2corr", core.cov2corr, C); add("cov2corr std", lambda c: core.cov2corr(c, True), C)
    B7 = np.full((7, 7), -.5); np.fill_diagonal(B7, 1.)
    for M in (R, C, B, np.eye(3), B7, np.abs(B7), np.abs(B7) * 4):
        add("is_psd", core.is_psd, M); add("is_psd strict", lambda m: core.is_psd(m, True), M); add("is_symmetric", core.is_symmetric, M)
        for meth in ("clipped", "nearest"): add(f"near_psd {meth}", lambda m, meth=meth: core.near_psd(m, meth), M)
    add("create_cov_matrix", core.create_cov_matrix, np.array([.1, .2, .3]))
    # stats
    for meth in ("pearson", "kendall", "spearman"):
        for use in ("everything", "complete", "pairwise.complete"):
            add(f"corr {meth} {use}", lambda x, meth=meth, use=use: stats.corr(x, method=meth, use=use), XM)
            add(f"corr {meth} {use} two", lambda x, y, meth=meth, use=use: stats.corr(x, y, method=meth, use=use), XM[:, 0].copy(), XM[:, 1].copy())
    for fn in (stats.pearson_rho, stats.kendall_tau, stats.spearman_rho): add(fn.__name__, fn, XR)
    for nm in ("pdf", "logpdf"): add(f"multivariate_t.{nm}", lambda x, mu, S, nm=nm: getattr(stats.multivariate_t, nm)(x, mu, S, 4.), XR[:4], np.array([0., 1., 2.]), C)
    for ty in ("shifted", "kshirsagar"): add(f"multivariate_t.rvs {ty}", lambda mu, S, ty=ty: stats.multivariate_t.rvs(mu, S, 4., size=5, type_=ty, random_state=1), np.array([0., 1., 2.]), C)
    for al, be in ((1.5, .3), (1., .2), (2., 0.)):
        for nm in ("pdf", "logpdf"): add(f"skew_stable.{nm} {al}", lambda x, nm=nm, al=al, be=be: getattr(stats.skew_stable, nm)(x, al, be), np.array([-1., 0., .7]))
    # special
    z = np.array([.2, .9, 2.5, -1.3]); Z = np.column_stack([z, z])
    for th in (True, False):
        for nm, fn in (("clausen", cl.clausen), ("debye_1", db.debye_1), ("debye_2", db.debye_2), ("dilog", dl.dilog)):
            add(f"{nm} threaded={th}", lambda x, fn=fn, th=th: fn(x, threaded=th), z); add(f"{nm} matrix threaded={th}", lambda x, fn=fn, th=th: fn(x, threaded=th), Z)
        add(f"dilog_complex threaded={th}", lambda r, t, th=th: dl.dilog_complex(r, t, threaded=th), np.abs(z), z); add(f"dilog_complex one threaded={th}", lambda r, th=th: dl.dilog_complex(r, threaded=th), z + 1j * z[::-1])
    for fn in (trig.cospi, trig.cospi2, trig.sinpi, trig.sinpi2, trig.tanpi, trig.tanpi2): add(fn.__name__, fn, z); add(fn.__name__ + " ints", fn, np.array([0., 1., 2.]))
    add("log1mexp", sf.log1mexp, np.abs(z)); add("log1pexp", sf.log1pexp, z * 20)
    lx = np.log(rng.uniform(size=(3, 4)))
    add("log_sum", sf.log_sum, lx[0].copy()); add("log_sum matrix", sf.log_sum, lx); add("log_sum offset", sf.log_sum, lx, np.array([-1., 0., 1., .5])); add("log_sum zeros", sf.log_sum, np.array([-np.inf, 0., 1.]))
    for s_ in (-3, -2, -1, 0, 1, 2, 3):
        for meth in ("default", "neg-stirling", "neg-eulerian"):
            if s_ > 2 or s_ > 0 and meth != "default": continue
            for lg in (False, True): add(f"poly_log {s_} {meth} {lg}", lambda x, s_=s_, meth=meth, lg=lg: sf.poly_log(x, s_, meth, lg), np.array([.1, .5, .8]) if not lg else np.log([.1, .5, .8]))
    add("polyn_eval", sf.polyn_eval, np.array([1., 2., 3.]), z); add("sign_ff", lambda j, d: sf.sign_ff(.4, j, d), np.array([1., 2., 3.]), np.array([3., 4., 5.]))
    add("comb", lambda n, r: cb.comb(n, r), np.array([5., 6.]), np.array([2., 3.])); add("perm", lambda n, r: cb.perm(n, r), np.array([5., 6.]), np.array([2., 3.]))
    add("comb scalar", lambda n, r: cb.comb(n, r), np.array([5., 6.]), 2)
    for meth in ("default", "pois", "direct", "log", "sort"):
        add(f"gumbel_poly {meth}", lambda x, meth=meth: gumbel_poly(x, .5, 4, meth), np.array([-.5, .1, 1.2])); add(f"gumbel_poly {meth} log", lambda x, meth=meth: gumbel_poly(x, .5, 4, meth, True), np.array([-.5, .1, 1.2]))
    for meth in ("log", "direct", "diff"):
        for lg in (False, True): add(f"dsum_sibuya {meth} {lg}", lambda x, n, meth=meth, lg=lg: dsum_sibuya(x, n, .5, meth, lg), np.array([3., 4., 5.]), np.array([1., 2., 3.]))
    # goodness of fit
    G = rng.normal(size=(12, 2)) + rng.normal(size=(12, 1))
    for X in (G, np.round(G)):
        add("exch_test", lambda x, y: exch_test(x, y, N=9), X[:, 0].copy(), X[:, 1].copy()); add("exch_test grid", lambda x, y: exch_test(x, y, N=9, m=3), X[:, 0].copy(), X[:, 1].copy())
        add("rad_sym_test", lambda x: rad_sym_test(x, N=9), X); add("rad_sym_test max", lambda x: rad_sym_test(x, N=9, ties="max"), X)
        add("gof_copula", lambda x: gof_copula(CLS["gaussian"], x, reps=3), X); 
        add("gof_copula options", lambda x, o: gof_copula(CLS["clayton"], x, reps=2, fit_ties="max", optim_options=o), X + 2 * X[:, :1], {"options": {"maxiter": 20}})
    add("merge_dict", merge_dict, {"a": 1, "o": {"x": 1, "y": {"q": 1}}}, {"a": 2, "o": {"x": 3, "y": {"r": 2}}, "n": {"m": 1}})
    add("merge_dicts", lambda *ds: merge_dicts(*ds), {"a": 1, "o": {"x": 1}}, {"o": {"x": 3}}, {"o": {"z": {"k": 1}}}, {"o": {"z": {"l": 2}}})
    add("find_root", lambda lo, hi: optimize.find_root(lambda x: x ** 3 - .2, lo, hi), 0., 1.)
    # the same with many rows
    import re
    big = lambda x: np.tile(x, (-(-(1500 if x.ndim == 1 else 600) // len(x)),) + (1,) * (x.ndim - 1))
    LARGE = re.compile(r"[.](cdf|pdf|log_lik|pobs|psi|ipsi|dipsi|A|dAdu|dtau|drho)( log| keyword| faces| asis| max| matrix| 2)?( d=\d)?$|[.]fit itau|[.]fit kmeans|multivariate_t.(log)?pdf|^(emp_dist_func|pseudo_obs|rank_data|corr|pearson_rho|kendall_tau|spearman_rho|clausen|debye_|dilog|cospi|sinpi|tanpi|log1mexp|log1pexp|poly_log|comb|perm|sign_ff|gumbel_poly|gmm_marginal|gmm_log|gmcm_log)")
    for name, fn, args in list(out):
        if LARGE.search(name) and "one" not in name:
            row = "multivariate_t" in name
            out.append((name + " large", fn, [big(x) if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind in "fc" and not (row and i) and len(x) else x for i, x in enumerate(args)]))
    return out

counts = dict(total=0, ok=0)
for rep in range(2 if a.thorough else 1):
    for name, fn, args in calls():
        s = tr.session(name)
        for k, kind in enumerate(VARIANTS):
            if name.endswith(" large") and kind not in ("C", "F", "df"): continue
            new = [variant(x, kind) for x in args]
            if all(n is None for n in new): continue
            new = [variant(x, "C") if n is None else n for n, x in zip(new, args)]
            names = [f"argument {i + 1} of {name} ({kind})" for i in range(len(new))]
            s.note("own", f"arguments of {name}", heap=[digest(x) for x in new])
            v, e = s.run(f"{name} ({kind})", lambda: fn(*new))
            counts["total"] += 1; counts["ok"] += e is None
            s.note("call", f"{name} ({kind})", heap=[digest(x) for x in new], names=names, must=False, bad="" if e is None else repr(e)[:150])

# ---- histories: what was given earlier is never written later ----
FAMS = ["gaussian", "student", "gmc", "marginal", "empirical", "clayton"]
def fresh(fam, d):
    if fam in ("gaussian", "student", "clayton"): return make(fam, d)
    if fam == "gmc": return GaussianMixtureCopula(2, d)
    if fam == "marginal": return MarginalCopula(make("gaussian", d), "norm")
    return EmpiricalCopula(rng.normal(size=(9, d)))
for fam in FAMS:
    for gi, g in enumerate(a.gen_data):
        d = 2 + gi % 2
        cop = fresh(fam, d)
        cells, names = [], []
        def new_cell(kind):
            if kind == "data":
                X = rng.normal(size=(25, d)) + (1.5 if fam != "gmc" else 1) * rng.normal(size=(25, 1))
                return [X, pd.DataFrame(X, columns=list("abc")[:d]), np.asfortranarray(X), np.asarray(pseudo_obs(X))][gi // 2 % 4]
            if fam == "gmc":
                D = dict(prob=np.array([.3, .7]), means=rng.normal(size=(2, d)), covs=np.array([np.eye(d), np.eye(d) * .5 + .2]))
                return D if kind == "params" else GMCParam.from_dict(D)
            if fam == "marginal": return [{"type": "norm", "parameters": {"loc": .3, "scale": 2.}} for _ in range(d)]
            if fam == "empirical": return rng.normal(size=(10, d))
            if fam == "clayton": return np.array(1.7)
            r = np.array(rand_corr(rng, d))
            if fam == "student": return StudentParams(4., r) if kind == "named" else np.concatenate([[5.], r])
            if kind == "named":     # the parameter vector another copula shows
                other = make(fam, d, list(r)); return other.params
            return r if gi % 3 else r.tolist()
        def give(kind, x):
            global cop
            if kind == "data":
                kw = dict(verbose=0)
                if fam == "gmc": kw.update(max_iter=2, x0=GMCParam(2, d, [.5, .5], np.vstack([np.zeros(d), np.ones(d)]), [np.eye(d)] * 2))
                elif fam != "empirical": kw["method"] = "itau"; kw["to_pobs"] = not (np.all(np.asarray(x) > 0) and np.all(np.asarray(x) < 1))
                if fam == "empirical": cop = EmpiricalCopula(x, smoothing=["none", "beta"][gi % 2])
                elif fam == "marginal": kw.pop("to_pobs"); cop.fit(x, **kw)
                else: cop.fit(x, **kw)
            elif fam == "marginal": cop = MarginalCopula(make("gaussian", d), x)
            elif fam == "empirical": cop = EmpiricalCopula(x)
            else: cop.params = x
        def work(kind):
            if kind == "eval":
                U = rng.uniform(.1, .9, (3, d)); cop.pdf(U) if fam != "empirical" else cop.cdf(U)
                if fam not in ("student",): cop.cdf(U)
            elif kind == "draw": cop.random(3, seed=1)
            elif kind == "refit":
                X = rng.normal(size=(25, d)) + 1.5 * rng.normal(size=(25, 1))
                if fam == "gmc": cop.fit(X, max_iter=2, verbose=0, x0=cop.params)
                elif fam != "empirical":
                    cop.fit(X, verbose=0, method="itau")
                    if fam in ("gaussian",) and gi % 4 == 0: cop.fit(X, verbose=0)
            elif kind == "element":
                if fam in ("gaussian", "student"):
                    if gi % 3 == 0: cop[0, 1] = -.35
                    elif gi % 3 == 1: cop[0] = .25
                    elif fam == "gaussian": cop.params[:] = .15
                    else: cop[0, :] = .2
                elif fam == "gmc" and cop.params is not None:
                    p = cop.params
                    p.prob = [.5, .5]; p.means = np.zeros((2, d))
                elif fam == "clayton": cop.params = 2.2
                elif fam == "empirical": cop.smoothing = "checkerboard"
        s = tr.session(f"{fam} history {gi}")
        given = {}
        for h in g["hist"]:
            if h["op"] in ("params", "data", "named"):
                key = (h["op"], h["c"])
                if key not in given:
                    given[key] = new_cell(h["op"])
                    s.note("own", f"new {h['op']} cell {h['c']}", heap=[digest(x) for x in given.values()])
                x = given[key]
                _, e = s.run(f"{fam} given {h['op']}", lambda: give(h["op"], x))
            elif h["op"] == "write":
                for (kd, c), x in given.items():
                    if c == h["c"] and isinstance(x, np.ndarray) and x.flags.writeable and x.ndim: x.flat[0] = x.flat[0] * .9
                s.note("own", f"the caller writes cell {h['c']}", heap=[digest(x) for x in given.values()])
                continue
            else:
                _, e = s.run(f"{fam} {h['op']}", lambda: work(h["op"]))
            # a mixture parameter object given by the caller is the copula's own afterwards: writing its attributes through the copula is the caller's act
            if fam == "gmc" and h["op"] == "element":
                s.note("own", "attributes written on purpose", heap=[digest(x) for x in given.values()]); continue
            s.note("call", f"{fam} {h['op']} in {[x['op'] for x in g['hist']]}", heap=[digest(x) for x in given.values()], names=[f"{k} cell {c} given to {fam}" for k, c in given], must=fam != "gmc", bad="" if e is None else repr(e)[:150])
tr.save()
if os.environ.get("SHOW"):
    print(counts)
    for s in tr.sessions:
        for e in s["events"]:
            if e["op"] == "call" and e["bad"]: print(e["key"], e["bad"][:100])
