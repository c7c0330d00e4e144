"""C16: goodness of fit.  The class under test is a copula class that writes down what is done with it."""
from hx import *
import fcntl, inspect, itertools, tempfile
import cops
from copulae.gof import gof_copula

a = parse(); rng = a.rng; tr = Trace(a.out)
LOG = a.out + ".calls"
_ids = itertools.count()
ECHO = None

def log(**ev):
    with open(LOG, "a") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        fh.write(json.dumps(ev) + "\n")

def recorder(base):
    sig = inspect.signature(base.fit)
    class Recording(base):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            self._rid = f"{os.getpid()}-{next(_ids)}"
        def _p(self):
            return fl(np.atleast_1d(np.asarray(self.params, float)))
        def fit(self, *args, **kw):
            b = sig.bind(self, *args, **kw); b.apply_defaults(); b = b.arguments
            given = mat(np.asarray(b["data"], float))
            out = super().fit(*args, **kw)
            log(op="fit", inst=self._rid, rows=given, ties=b["ties"], topobs=bool(b["to_pobs"]), par=self._p(), opts=f"{b['method']} {b['scale']}")
            return out
        def random(self, *args, **kw):
            out = super().random(*args, **kw)
            if ECHO is not None: out = ECHO.copy()
            log(op="draw", inst=self._rid, rows=mat(np.asarray(out, float)), par=self._p())
            return out
        def cdf(self, u, *args, **kw):
            pts = np.atleast_2d(np.asarray(u, float)).copy()
            out = super().cdf(u, *args, **kw)
            log(op="eval", inst=self._rid, pts=mat(pts), val=fl(np.atleast_1d(out)))
            return out
    Recording.__name__ = Recording.__qualname__ = "Recording" + base.__name__
    globals()[Recording.__name__] = Recording
    return Recording
REC = {k: recorder(cops.CLS[k]) for k in ("clayton", "frank", "gumbel", "gaussian", "indep")}

def gof(r):
    return dict(k="gof", e="", stat=f(r.statistic), p=f(r.pvalue), par=fl(np.atleast_1d(np.asarray(r.parameter, float)))) if hasattr(r, "pvalue") else dict(k="other", e=type(r).__name__)
def conv(x): return enc(x) if isinstance(x, BaseException) else gof(x)

def data(fam, n, d, tied, k):
    z = rng.normal(size=(n, 1)) * (1.2 if d == 2 else 2.5)     # in dimension 3 a replicate with negative dependence cannot be fitted
    X = z + rng.normal(size=(n, d))
    if tied:
        X = np.round(X * [1.5, 2, 1][k % 3]) if k % 2 else np.column_stack([np.round(X[:, j]) if j == k // 2 % d else X[:, j] for j in range(d)])
        c = k // 2 % d
        if len(np.unique(X[:, c])) == n: X[1, c] = X[0, c]
        for j in range(d):
            if len(np.unique(X[:, j])) < 4: X[:, j] = np.round(z[:, 0] * 2 + rng.normal(size=n))
    return X

def run(c, k, reps, echo=False, n=None):
    global ECHO
    fam, many = c["fam"], c["many"]
    d = 3 if k % 3 == 2 and fam != "gaussian" else 2
    n = n or int(rng.choice([15, 18, 24] if not a.thorough else [15, 20, 35]))
    X = data(fam, n, d, c["tied"], k)
    method = "itau" if fam in ("gaussian", "frank", "gumbel", "clayton") and k % 4 == 0 else "ml"
    opts = dict(method=method) if method != "ml" else {}
    if k % 5 == 1: opts["scale"] = 2.
    if k % 7 in (1, 4): opts["to_pobs"] = False      # then the fit is on exactly what the test hands over
    given = [X, pd.DataFrame(X, columns=["q", "a", "m"][:d]), np.asfortranarray(X), X.astype(int) if np.all(X == np.round(X)) else X][k % 4]
    if echo: ECHO = (np.argsort(np.argsort(X, axis=0), axis=0) + 1.) / (n + 1)
    if os.path.exists(LOG): os.remove(LOG)
    kw = dict(ties=c["ties"], fit_ties=c["fitties"])
    if c["ties"] == "average" and k % 2: kw.pop("ties")
    s = tr.session(f"gof {fam} {k}", rows=mat(X), ties=c["ties"], fitties=c["fitties"], reps=reps, d=d, fam=fam, echo=echo, opts=f"{method} {opts.get('scale', 1.0)}")
    np.random.seed(int(rng.randint(2 ** 31)))
    key = f"gof_copula({fam}, {n}x{d}{' tied' if c['tied'] else ''}, reps={reps}, {kw}, multiprocess={many}, {opts})"
    v, e = s.run(key, lambda: gof_copula(REC[fam], given, reps, multiprocess=many, **kw, **opts), 120)
    ECHO = None
    if os.path.exists(LOG):
        for line in open(LOG):
            ev = json.loads(line); s.note(ev.pop("op"), "recorded call", **ev)
    s.note("result", key, res=conv(v if e is None else e))

cfgs = [g for g in a.gen_data]
rng.shuffle(cfgs)
single = [c for c in cfgs if not c["many"]]; multi = [c for c in cfgs if c["many"]]
n_s, n_m = (len(single), 60) if a.thorough else (110, 10)
for k, c in enumerate(single[:n_s]): run(c, k, [4, 1, 7, 3][k % 4])
for k, c in enumerate(multi[:n_m]): run(c, k, [6, 9, 3, 12][k % 4])
for k, c in enumerate([c for c in cfgs if not c['tied']][:12]): run(dict(c, many=k % 6 == 5), k, 5, echo=True)
big = [c for c in single if c["fam"] in ("clayton", "frank", "gumbel")]
for n, c, k in zip([110, 160, 140], [c for c in big if not c["tied"]][:2] + [c for c in big if c["tied"]], (0, 4, 5)): run(c, k, 1, n=n)     # longer data
X = data("gumbel", 15, 2, False, 0)
s = tr.session("refusals", rows=mat(X), ties="average", fitties="average", reps=1, d=2, fam="gumbel", echo=False, opts="")
s.ev("refuse", "unknown tie rule", lambda: gof_copula(REC["gumbel"], X, 2, ties="median"), what="tie_rule")
s.ev("refuse", "vector", lambda: gof_copula(REC["gumbel"], X[:, 0], 2), what="vector")
s.ev("refuse", "unknown method", lambda: gof_copula(REC["gumbel"], X, 2, method="mm"), what="method")
if os.path.exists(LOG): os.remove(LOG)
tr.save()
