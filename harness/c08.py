"""C08: life cycles of fits, refused fits, assignments and reports."""
from hx import *
from cops import *
import re, zlib
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula
from copulae.copula.exceptions import NotFittedError
from scipy.stats import rankdata

a = parse(); rng = a.rng; tr = Trace(a.out)
TIES = ["average", "min", "max", "dense", "ordinal"]
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")

def flat(p):
    if p is None: return []
    if hasattr(p, "df"): return [p.df, *np.ravel(p.rho)]
    if hasattr(p, "to_vector"): return [*np.ravel(p.prob), *np.ravel(p.means), *np.ravel(p.covs)]
    return list(np.ravel(np.asarray(p, float)))

class Subject:
    def __init__(self, fam, d):
        self.fam, self.d, self.inner = fam, d, None
        if fam == "gmc": self.cop = GaussianMixtureCopula(2, d)
        elif fam == "empirical": self.cop = EmpiricalCopula(rng.normal(size=(9, d)), smoothing="beta")
        elif fam.startswith("marginal"):
            self.inner = make(fam.split("_")[1], d)
            self.cop = MarginalCopula(self.inner, ["norm", {"type": "logistic"}, {"type": "norm", "parameters": {"loc": 1.}}][:d])
        else: self.cop = make(fam, d)
        self.base = self.inner or self.cop
        self.always = fam in ("indep", "empirical")

    def params(self):
        """(everything, the part a fit report describes)"""
        if self.fam == "empirical": return [], []
        if self.fam == "indep": return [self.cop.params], []
        if self.inner is not None:
            p = self.cop.params
            inner = flat(p["copula"])
            return inner + [float(v) for m in p["marginals"] for v in m["parameters"].values()], inner
        p = flat(self.cop.params)
        return p, p

def rendered(r, o):
    for name, fn in (("text", lambda: str(r)), ("html", lambda: r.as_html()), ("html2", lambda: r._repr_html_()), ("repr", lambda: repr(r))):
        try:
            t = fn(); ok = isinstance(t, str) and len(t.strip()) > 0
        except Exception as e:
            t, ok = "", False; o["e"] = f"{name}: {type(e).__name__}"
        if name == "text": o["text"] = ok; o["tnums"] = nums(t)
        if name == "html": o["html"] = ok; o["hnums"] = nums(re.sub(r"<[^>]*>", " ", t))
        if name in ("html2", "repr") and not ok: o["html" if name == "html2" else "text"] = False
        o["crc"] = zlib.crc32((str(o.get("crc", 0)) + t).encode()) & 0x3fffffff
    return o

def nums(t): return fl(sorted({float(x) for x in NUM.findall(t)}))

def report(s, sub, cat):
    o = dict(k="none", e="", notfitted=False, text=False, html=False, tnums=[], hnums=[], crc=0, par=[], n=fl([0])[0], ll=fl([0])[0], hasll=False)
    r, e = s.run(f"{sub.fam}.summary({cat})", (lambda: sub.cop.summary("fit")) if cat == "fit" else (lambda: sub.cop.summary()))
    if e is not None:
        o.update(k="exc", e=type(e).__name__, notfitted=isinstance(e, NotFittedError)); return o
    o.update(k="report")
    rendered(r, o)
    if cat == "fit":
        p = getattr(r, "best_params", None) if hasattr(r, "best_params") else getattr(r, "params", None)
        if sub.fam not in ("indep", "empirical"):
            o["par"] = fl(flat(p)); o["n"] = f(getattr(r, "nsample", -1))
            if hasattr(r, "log_lik"): o.update(ll=f(r.log_lik), hasll=True)
    return o

def observe(s, sub):
    p, pf = sub.params()
    def draw():
        st = np.random.get_state()
        try: return sub.cop.random(2, seed=5)
        finally: np.random.set_state(st)
    x, e = s.run("random", draw)
    cols = [str(c) for c in x.columns] if isinstance(x, pd.DataFrame) else []
    smry = report(s, sub, "copula")
    return dict(par=fl(p), fitpar=fl(pf), cols=cols, fit=report(s, sub, "fit"), smry=dict(smry, par=[]))

def data(sub, n, tie):
    d = sub.d
    X = rng.normal(size=(n, d)) + 2.2 * rng.normal(size=(n, 1))
    if sub.fam == "gmc": X = X + np.where(np.arange(n) % 2, 4., 0.)[:, None]
    return np.round(X, 1) if tie else X

def pobs(X, ties): return np.column_stack([rankdata(X[:, j], ties) for j in range(X.shape[1])]) / (len(X) + 1)

rot = 0
def methods(sub, rep):
    fam = sub.base.name.lower() if sub.inner is not None else sub.fam
    fam = {"independent": "indep"}.get(fam, fam)
    if fam == "gmc": return ["kmeans", "pem", "kmeans", "sgd"][rep % 4]
    if fam == "gaussian": return ["ml", "itau", "irho", "ML"][rep % 4]
    if fam in ("clayton", "frank", "gumbel"): return ["ml", "itau", "ml", "ITAU"][rep % 4]
    if fam == "student": return ["itau", "ml", "itau", "itau"][rep % 4]
    return "ml"

def step(s, sub, op, n=None):
    global rot; rot += 1
    d, cop = sub.d, sub.cop
    ties = TIES[int(rng.randint(5))]
    if n and ties == "dense": ties = "average"
    n = n or int(rng.randint(14, 22))
    kw = {"verbose": 0}
    gmc = sub.fam == "gmc"
    if op in ("array", "table", "asis"):
        m = methods(sub, int(rng.randint(4)))
        X = data(sub, n, rot % 3 == 0)
        topobs = op != "asis" or gmc
        if op == "asis" and not gmc: X = pobs(X, "average")
        kw["method"] = m
        if gmc: kw["max_iter"] = 12 if m == "pem" else 4
        else:
            kw["to_pobs"] = topobs; kw["scale"] = [1., 10., .5][rot % 3]
            if m.lower() == "ml" and rot % 4 == 1 and sub.fam in ARCH: kw["x0"] = [2.5]
        kw["ties"] = ties
        names = [f"{'ABC'[rot % 3]}{j}" for j in range(d)]
        arg = pd.DataFrame(X, columns=names) if op == "table" else (X.tolist() if rot % 5 == 0 and not gmc else X)
        key = f"{sub.fam}(dim={d}).fit({op} {X.shape}, {', '.join(f'{k}={v}' for k, v in kw.items() if k != 'verbose')})"
        r, e = s.run(key, lambda: cop.fit(arg, **kw))
        lp = []
        pts = pobs(X, ties) if topobs else X
        if e is None and sub.fam not in ("gmc", "empirical", "indep"):
            v, e2 = s.run("pdf", lambda: sub.base.pdf(pts, log=True))
            lp = fl(v) if e2 is None else []
        obs = observe(s, sub)
        conv = True
        if e is None and not gmc and not sub.always:
            sm = sub.cop.summary("fit")
            if isinstance(sm.results, dict) and sm.results.get("success") is not None: conv = bool(sm.results["success"])
        s.note("fit", key, res=enc(e) if e is not None else dict(EMPTY, k="other", t=type(r).__name__), isself=r is cop, n=f(n), converged=conv,
               table=op == "table" and sub.fam not in ("gmc", "empirical", "indep"), names=names, rows=mat(X) if lp else [], pts=mat(pts) if lp else [],
               lp=lp, ties=ties, topobs=topobs, obs=obs)
    elif op == "assign":
        if gmc:
            v = dict(prob=[.25, .75], means=rng.normal(size=(2, d)), covs=np.array([np.eye(d) * c for c in (.5, 1.5)]))
            def go(): cop.params = v
        elif sub.fam in ("empirical", "indep"):
            def go(): return None
        else:
            t = {"clayton": [1.5], "frank": [3.25], "gumbel": [1.75], "gaussian": [.125] * (d * (d - 1) // 2), "student": [7.] + [.125] * (d * (d - 1) // 2)}[sub.fam.split("_")[-1]]
            def go(): assign(sub.base, sub.fam.split("_")[-1], t)
        _, e = s.run(f"{sub.fam} assign", go)
        s.note("assign", f"{sub.fam}(dim={d}).params = ...", res=enc(e), obs=observe(s, sub))
    else:
        X = data(sub, n, False)
        if op == "category":
            c = [("FIT",), ("results",), ("",), ("fits",)][rot % 4]
            call = (lambda: cop.summary(*c)) if rot % 2 else (lambda: cop.summary(category=c[0])); key = f"{sub.fam}.summary({c[0]!r})"
        else:
            if op == "dim": X = np.column_stack([X, X[:, 0]]) if rot % 2 or d == 2 else X[:, :d - 1]
            elif op == "unit": X = pobs(X, "average"); X[3, rot % d] = [1.2, -.1, 7.][rot % 3]; kw["to_pobs"] = False
            elif op == "rows": X = X[:1 if gmc else d - 1]
            elif op == "method": kw["method"] = ["mle", "tau", "moments"][rot % 3]
            if gmc and op == "unit": X = X[:1]; kw.pop("to_pobs")
            if op in ("dim", "unit", "rows") and rot % 2 and not gmc and not sub.fam.startswith("frank"): kw["method"] = "itau"
            arg = pd.DataFrame(X, columns=[f"bad{j}" for j in range(X.shape[1])]) if rot % 2 else X
            call = lambda: cop.fit(arg, **kw); key = f"{sub.fam}(dim={d}).fit({op} {X.shape}, {kw})"
        r, e = s.run(key, call)
        s.note("bad", key, kind=op, res=enc(e) if e is not None else dict(EMPTY, k="other", t=type(r).__name__), valueerror=isinstance(e, ValueError), obs=observe(s, sub))

KINDS = [("clayton", 2), ("frank", 3), ("gumbel", 2), ("gaussian", 3), ("student", 2), ("indep", 2), ("empirical", 2), ("gmc", 2), ("marginal_gaussian", 3), ("marginal_clayton", 2)]
def life(fam, d, hist):
    s = tr.session(f"{fam} {'-'.join(hist)}")
    sub = Subject(fam, d)
    s.s["init"] = dict(obs=observe(s, sub), fam=fam, always=sub.always)
    s.note("look", f"{fam}(dim={d}) new", obs=observe(s, sub))
    for op in hist: step(s, sub, op)

for k, g in enumerate(a.gen_data):
    for fam, d in KINDS: life(fam, d, g["hist"])
OPS = ["array", "table", "asis", "dim", "unit", "rows", "method", "category", "assign"]
for rep in range(6 if a.thorough else 1):   # long seeded lives in other dimensions
    for fam, d in [("clayton", 3), ("frank", 2), ("gumbel", 4), ("gaussian", 4), ("student", 3), ("gmc", 3), ("marginal_student", 2), ("marginal_gumbel", 3)]:
        life(fam, d, [str(o) for o in rng.choice(OPS, 8)])
for fam, d in KINDS:       # more data than in the lives above
    s = tr.session(f"{fam} larger"); sub = Subject(fam, d)
    s.s["init"] = dict(obs=observe(s, sub), fam=fam, always=sub.always)
    for op, n in (("asis", 1400), ("array", 240)) if fam != "gmc" else (("array", 600),): step(s, sub, op, n)
tr.save()
