"""C28: printed forms of copulas and mixture parameter sets."""
from hx import *
from cops import *
import html as H, re
from copulae import EmpiricalCopula, GaussianMixtureCopula, MarginalCopula
from copulae.mixtures.gmc.parameter import GMCParam
from scipy import stats

a = parse(); rng = a.rng; tr = Trace(a.out)
NUM = re.compile(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+|inf|nan)$")

def read(text, markup):
    """a page as a sequence of words followed by numbers"""
    if markup: text = H.unescape(re.sub(r"<[^>]*>", "\n", text))
    out, words, nums = [], [], []
    for t in re.split(r"[\s\[\](),;]+", text):
        t = t.strip(":<>/{}'\"")
        if not re.search(r"\w", t): continue
        if NUM.match(t): nums.append(float(t)); continue
        if nums: out.append(dict(words=words, nums=fl(nums))); words, nums = [], []
        words.append(t.lower())
    if words or nums: out.append(dict(words=words, nums=fl(nums)))
    return out

def blank(kind, name, dim): return dict(kind=kind, name=name, dim=dim, theta=[], R=[], df=[], emp=[], margins=[], inner=[], mix=[], algo="")
def corr_of(vec, d):
    R = np.eye(d); k = 0
    for i in range(d):
        for j in range(i + 1, d): R[i, j] = R[j, i] = vec[k]; k += 1
    return R
def describe(fam, d, par):
    o = blank("archimedean" if fam in ARCH else fam, fam if fam != "indep" else "independent", d)
    if fam in ARCH: o["theta"] = fl(par)
    if fam == "student": o["df"] = fl(par[:1]); par = par[1:]
    if fam in ("gaussian", "student"): o["R"] = mat(corr_of(par, d))
    return o
def flat(p):
    if hasattr(p, "df"): return [float(p.df), *np.ravel(p.rho)]
    return [float(v) for v in np.ravel(np.asarray(p, float))]

SHAPES = dict(t=["df"], weibull_min=["c"], lognorm=["s"], pareto=["b"], gamma=["a"], beta=["a", "b"])
TYPES = ["norm", "expon", "uniform", "logistic", "cauchy", "laplace", "gumbel_r", "rayleigh", "t", "weibull_min", "lognorm", "pareto", "gamma", "beta"]
FITTABLE = ["norm", "uniform", "logistic", "laplace", "expon"]
def simplex(m): w = rng.gamma(2, size=m) + .05; return w / w.sum()
def covs(m, d):
    out = []
    for _ in range(m):
        A = rng.normal(size=(d, d)); S = A @ A.T + .3 * np.eye(d); out.append((S + S.T) / 2 * rng.choice([.01, 1, 40.]))
    return np.array(out)

class Plain:
    def __init__(self, fam, d):
        self.fam, self.d = fam, d; par = rand_par(rng, fam, d); self.cop = make(fam, d, par); self.o = describe(fam, d, par)
        if self.fam == "indep": self.o["name"] = str(self.cop.name).lower()
    def assign(self, t):
        f, d = self.fam, self.d
        if f == "indep": return
        par = rand_par(rng, f, d)
        if f in ("gaussian", "student") and t % 3 == 0:
            R = corr_of(par[1:] if f == "student" else par, d); self.cop[:] = R
            if f == "student": par[0] = float(self.cop.params.df)
        else: assign(self.cop, f, par)
        self.o = describe(f, d, par)
    def fit(self, t):
        X = rng.normal(size=(25, self.d)) + rng.normal(size=(25, 1))
        kw = {} if self.fam == "indep" else dict(method="itau" if t % 3 or self.fam == "student" else "ml")
        self.cop.fit(X, verbose=0, **kw)
        if self.fam != "indep": self.o = describe(self.fam, self.d, flat(self.cop.params))
    def refuse(self, t):
        c = self.cop
        for fn in (lambda: c.fit(rng.normal(size=(9, self.d + 1)), verbose=0), lambda: setattr(c, "params", "x") if self.fam != "indep" else c.random(-1), lambda: c.summary("covariance")):
            try: fn()
            except Exception: pass
class Empirical:
    fam = "empirical"
    def __init__(self, d):
        self.d, self.n = d, int(rng.randint(4, 30)); off, ties, sm = [0, .25, .5, 1][rng.randint(4)], ["average", "min", "max", "dense", "ordinal"][rng.randint(5)], ["none", "beta", "checkerboard", None][rng.randint(4)]
        X = rng.normal(size=(self.n, d)); self.cop = EmpiricalCopula(pd.DataFrame(X, columns=list("pqrst")[:d]) if rng.randint(2) else X, smoothing=sm, ties=ties, offset=off)
        self.o = blank("empirical", "empirical", d); self.o["emp"] = [dict(ties=ties, offset=fl([off]), smoothing=sm or "none", n=self.n)]
    def assign(self, t):
        e = dict(self.o["emp"][0])
        if t % 2: e["ties"] = self.cop.ties = ["average", "min", "max", "dense"][rng.randint(4)]
        else: e["smoothing"] = self.cop.smoothing = ["none", "beta", "checkerboard"][rng.randint(3)]
        self.o = dict(self.o, emp=[e])
    def fit(self, t): self.cop.fit(rng.normal(size=(self.n, self.d)), verbose=0)
    def refuse(self, t):
        for fn in (lambda: setattr(self.cop, "smoothing", "gamma"), lambda: self.cop.summary("x")):
            try: fn()
            except Exception: pass
class Marginal:
    fam = "marginal"
    def __init__(self, d, fitted):
        self.d = d; self.inner = ["clayton", "gaussian", "frank", "student", "gumbel", "indep"][rng.randint(6)]; self.fitted = fitted
        self.build()
    def build(self):
        d = self.d; par = rand_par(rng, self.inner, d); ms, ds = [], []
        for _ in range(d):
            t = (FITTABLE if self.fitted else TYPES)[rng.randint(len(FITTABLE) if self.fitted else len(TYPES))]
            names = SHAPES.get(t, []) + ["loc", "scale"]
            vals = [float(rng.choice([rng.uniform(.5, 4), rng.randint(1, 9), 10 ** rng.uniform(-4, 5)])) for _ in names]
            if rng.rand() < .4: vals[-2] = -vals[-2]
            if rng.rand() < .3 and not SHAPES.get(t): names_w = names[:1]; vals[-1] = 1.
            else: names_w = names
            given = {n: vals[names.index(n)] for n in rng.permutation(names_w).tolist()}
            ms.append(dict(type=t if rng.randint(2) else getattr(stats, t), parameters=given)); ds.append(dict(type=t, names=names, values=fl(vals)))
        self.cop = MarginalCopula(make(self.inner, d, par), ms)
        i = describe(self.inner, d, par)
        if self.inner == "indep": i["name"] = str(IndepCopula(d).name).lower()
        self.o = dict(blank("marginal", "marginal", d), margins=ds, inner=[i])
    def assign(self, t): self.build()     # its parameters cannot be assigned: another one takes its place
    def fit(self, t):
        if not self.fitted: return
        X = rng.normal(size=(25, self.d)) + rng.normal(size=(25, 1)) + 9
        self.cop.fit(X, verbose=0, method="itau") if self.inner != "indep" else self.cop.fit(X, verbose=0)
        p = self.cop.params
        ds = [dict(type=str(m["type"]), names=[str(n) for n in m["parameters"]], values=fl(list(m["parameters"].values()))) for m in p["marginals"]]
        i = describe(self.inner, self.d, flat(p["copula"])) if self.inner != "indep" else self.o["inner"][0]
        self.o = dict(self.o, margins=ds, inner=[i])
    def refuse(self, t):
        for fn in (lambda: self.cop.fit(rng.normal(size=(9, self.d + 1)), verbose=0), lambda: self.cop.summary("x")):
            try: fn()
            except Exception: pass
class Mixture:
    fam = "gmc"
    def __init__(self, m, d):
        self.m, self.d = m, d; self.cop = GaussianMixtureCopula(m, d); self.o = blank("gmc", "gmc", d)
        if rng.rand() < .6: self.assign(0)
    def put(self, w, mu, S): self.o = dict(self.o, mix=[dict(m=self.m, w=fl(w), mu=mat(mu), S=[mat(c) for c in S])])
    def assign(self, t):
        x = dict(prob=simplex(self.m), means=rng.normal(size=(self.m, self.d)) * rng.choice([1, 50.]), covs=covs(self.m, self.d))
        self.cop.params = x if t % 2 else GMCParam(self.m, self.d, **x)
        self.put(x["prob"], x["means"], x["covs"])
    def fit(self, t):
        how = ["kmeans", "pem", "sgd"][t % 3]
        X = rng.normal(size=(30, self.d)) + (np.arange(30) % self.m)[:, None] * 8
        kw = dict(max_iter=3) if how != "kmeans" else {}
        try: self.cop.fit(X, method=how if t % 4 else how.upper(), verbose=0, **kw)
        except Exception: return      # the mixture fit itself is judged elsewhere; refused, nothing changes
        p = self.cop.params; self.o = dict(self.o, algo=how); self.put(p.prob, p.means, p.covs)
    def refuse(self, t):
        for fn in (lambda: self.cop.fit(rng.normal(size=(20, self.d)), method="em", verbose=0), lambda: setattr(self.cop, "params", "gmc"), lambda: self.cop.summary("x")):
            try: fn()
            except Exception: pass

def page(s, sub, form, t, tag):
    c = sub.cop
    sm = [lambda: c.summary(), lambda: c.summary("copula"), lambda: c.summary(category="copula")][t % 3]
    show = ([lambda x: str(x), lambda x: repr(x), lambda x: f"{x}"] if form == "text" else [lambda x: x.as_html(), lambda x: x._repr_html_()])
    x, e = s.run(f"{sub.fam}.summary()", lambda: show[t % len(show)](sm()))
    bad = "" if isinstance(x, str) else repr(e or type(x))[:120]
    s.note("page", f"{sub.fam}.summary() as {form} {tag}", form=form, bad=bad, page=read(x, form == "html") if not bad else [])
    if sub.fam in ("indep", "empirical"):
        x, e = s.run(f"{sub.fam}.summary(fit)", lambda: show[t % len(show)](c.summary("fit")))
        bad = "" if isinstance(x, str) else repr(e or type(x))[:120]
        s.note("fitpage", f"{sub.fam}.summary('fit') as {form} {tag}", form=form, bad=bad, page=read(x, form == "html") if not bad else [])

def life(sub, hist, k):
    s = tr.session(f"{sub.fam} {hist}", o=sub.o)
    for i, op in enumerate(hist):
        t = k * 7 + i * 3 + int(rng.randint(6)); tag = "after " + ",".join(hist[:i])
        if op in ("assign", "fit"):
            _, e = s.run(f"{sub.fam} {op}", lambda: getattr(sub, op)(t))
            s.note("change", f"{sub.fam} {op}", o=sub.o)
            if e is not None: break       # assignments and fits are judged elsewhere
        elif op == "refused":
            s.run(f"{sub.fam} refused", lambda: sub.refuse(t)); s.note("refused", f"{sub.fam} {op}")
        else: page(s, sub, op, t, tag)

FAMS = ["clayton", "frank", "gumbel", "gaussian", "student", "indep", "empirical", "marginal", "gmc", "marginal_fit"]
def subject(f, k):
    d = [2, 3, 4, 2, 6][k % 5]
    if f == "empirical": return Empirical(min(d, 5))
    if f == "marginal": return Marginal(d, False)
    if f == "marginal_fit": return Marginal(min(d, 3), True)
    if f == "gmc": return Mixture([2, 3, 1, 4][k % 4], min(d, 4))
    return Plain(f, d)
Hs = [Hh for Hh in a.gen_data]
Hs = [Hs[i] for i in rng.permutation(len(Hs))[:1500 if a.thorough else 400]]
for k, h in enumerate(Hs + Hs * (not a.thorough)): life(subject(FAMS[k % len(FAMS)], k // len(FAMS)), h, k)
for k in range(60 if a.thorough else 12): life(Mixture(2 + k % 2, 2 + k % 3), ["html", "fit", "html", "refused", "html", "fit", "html", "assign", "text", "html", "fit", "html"], 900 + k)
# mixture parameter sets written out as an expression, and shown
for k in range(400 if a.thorough else 80):
    m, d = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    S = covs(m, d) * 10 ** rng.uniform(-3, 3)
    P = GMCParam(m, d, simplex(m) if k % 4 else np.eye(m)[rng.randint(m)], rng.normal(size=(m, d)) * 10 ** rng.uniform(-6, 6), S)
    x = dict(m=m, d=d, w=fl(P.prob), mu=fl(P.means), S=fl(P.covs))
    o = dict(blank("gmc", "gmc", d), mix=[dict(m=m, w=fl(P.prob), mu=mat(P.means), S=[mat(c) for c in P.covs])])
    s = tr.session(f"set {m}x{d}", o=o)
    back, e = s.run("eval(repr(set))", lambda: eval(repr(P), dict(GMCParam=GMCParam, array=np.array, np=np)))
    ok = isinstance(back, GMCParam)
    s.note("set", f"eval(repr(GMCParam({m}, {d}, ...)))", bad="" if ok else repr(e or type(back))[:120], x=x, back=dict(m=back.n_clusters, d=back.n_dim, w=fl(back.prob), mu=fl(back.means), S=fl(back.covs)) if ok else x)
    txt, e = s.run("str(set)", lambda: str(P))
    s.note("page", f"str(GMCParam({m}, {d}, ...))", form="text", bad="" if isinstance(txt, str) else repr(e), page=read(txt or "", False))
tr.save()
