"""C27: several copula objects side by side."""
from hx import *
from cops import *
import copy, pickle
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula

a = parse(); rng = a.rng; tr = Trace(a.out)
FAMS = ["clayton", "frank", "gumbel", "gaussian", "student", "indep", "gmc", "empirical", "marginal"]

def flat(p):
    if p is None: return []
    if isinstance(p, dict): return flat(p["copula"]) + [float(v) for m in p["marginals"] for v in m["parameters"].values()]
    if hasattr(p, "df"): return [p.df, *np.ravel(p.rho)]
    if hasattr(p, "to_vector"): return [*np.ravel(p.prob), *np.ravel(p.means), *np.ravel(p.covs)]
    return list(np.ravel(np.asarray(p, float)))

PTS = {d: rng.uniform(.1, .9, (3, d)) for d in (2, 3)}
FIRST = {}
class Kind:
    """a family in a dimension, with the way the caller makes and changes its objects"""
    def __init__(self, fam, d, i):
        self.fam, self.d = fam, d
        self.table = np.round(rng.normal(size=(9, d)) * 2) / 2
        self.margins = ["norm", {"type": "logistic"}, {"type": "norm", "parameters": {"loc": .5}}][:d] if i % 2 else "norm"
        self.pts = PTS[d]
        self.inner = ["gumbel", "gaussian", "clayton", "student"][i % 4]
    def make(self):
        f, d = self.fam, self.d
        if f == "gmc": return GaussianMixtureCopula(2, d)
        if f == "empirical": return EmpiricalCopula(self.table.copy(), smoothing="beta")
        if f == "marginal": return MarginalCopula(make(self.inner, d), copy.deepcopy(self.margins))
        return make(f, d)
    def data(self, n): return rng.normal(size=(n, self.d)) * rng.uniform(.5, 2) + (.5 if self.fam == "gmc" else 2.) * rng.normal(size=(n, 1)) + (np.where(np.arange(n) % 2, 12., 0.)[:, None] if self.fam == "gmc" else 0)
    def fit(self, cop, table, t):
        X = self.data(int(rng.randint(16, 25)))
        names = [["u", "v", "w"], ["p", "q", "r"], ["a", "b", "c"]][t % 3][:self.d]
        kw = dict(method="kmeans") if self.fam == "gmc" else {} if self.fam in ("indep", "empirical") else dict(method="itau" if t % 4 or self.fam == "student" else "ml")
        if self.fam == "marginal" and self.inner == "student": kw["method"] = "itau"
        F = pd.DataFrame(X, columns=names) if table else X
        cop.fit(F, verbose=0, **kw)
        self.last = F
    def assign(self, cop, t):
        f, d = self.fam, self.d
        if f == "gmc":
            cop.params = dict(prob=[.3 + .05 * (t % 5), .7 - .05 * (t % 5)], means=rng.normal(size=(2, d)), covs=np.array([np.eye(d) * c for c in rng.uniform(.5, 2, 2)]))
        elif f == "empirical":
            if t % 2: cop.smoothing = ["none", "beta", "checkerboard"][t // 2 % 3]
            else: cop.ties = ["average", "min", "max", "dense"][t // 2 % 4]
        elif f == "indep": pass
        elif f == "marginal": self.fit(cop, False, 4)
        else: 
            if f in ("gaussian", "student") and t % 3 == 0: cop[int(rng.randint(d * (d - 1) // 2))] = float(rng.uniform(-.4, .6)) if d == 2 else float(rng.uniform(-.1, .3))
            elif f in ("gaussian", "student") and t % 6 == 5: cop.params = np.array(([4.] if f == "student" else []) + ([.9, .9, -.9] if d == 3 else [1.]))    # no such law
            elif f in ("gaussian", "student") and t % 3 == 1: cop[:] = np.eye(d) * (1 - .25) + .25 * rng.rand()
            else: assign(cop, f, rand_par(rng, f, d))
    def adopt(self, cop, other):
        """the object takes over the parameters of another one, and so follows the same law"""
        if self.fam in ("indep", "empirical", "marginal"): return False
        if np.isnan(flat(other.params)).any() if other.params is not None else True: return False
        cop.params = copy.deepcopy(other.params) if self.fam == "gmc" else other.params
        return True
    def twin(self, cop):
        """a new object with the same parameters"""
        if self.fam == "empirical": return EmpiricalCopula(cop.data.copy(), smoothing=cop.smoothing, ties=cop.ties)
        o = self.make()
        try: return o if self.adopt(o, cop) else None
        except Exception: return None
    def refuse(self, cop, t):
        f, d = self.fam, self.d
        bad = [lambda: cop.fit(rng.normal(size=(10, d + 1)), verbose=0), lambda: cop.random(-1)]
        if f in ARCH: bad += [lambda: setattr(cop, "params", -7. if f != "frank" or d > 2 else [1., 2.]), lambda: setattr(cop, "params", "x")]
        if f in ("gaussian", "student"): bad += [lambda: setattr(cop, "params", np.full(d * (d - 1) // 2 + (f == "gaussian"), .3) if f == "gaussian" else np.full(d * (d - 1) // 2 + 1, -1.)), lambda: cop.__setitem__((0, 1), 1.5)]
        if f == "gmc": bad += [lambda: setattr(cop, "params", dict(prob=[.9, .9], means=np.zeros((2, d)), covs=np.array([np.eye(d)] * 2)))]
        try: bad[t % len(bad)]()
        except Exception: pass
    def answers(self, cop, t):
        for fn in (lambda: cop.pdf(self.pts), lambda: cop.cdf(self.pts), lambda: cop.random(4), lambda: cop.params, lambda: str(cop.summary()), lambda: cop.log_lik(self.pts), lambda: cop.pobs(self.pts),
                   lambda: cop.bounds, lambda: cop.summary("fit"), lambda: cop.drho(), lambda: cop.lambda_, lambda: cop.sigma, lambda: cop.tau):
            try: fn()
            except Exception: pass
    def scribble(self, cop, t):
        """the caller writes into whatever the object handed out, and into the data it was given"""
        for fn in (lambda: cop.params, lambda: cop.sigma, lambda: cop.random(3), lambda: cop.bounds, lambda: cop.summary("fit").best_params, lambda: cop.summary("fit").params, lambda: cop.data, lambda: self.last, lambda: self.pts + 0):
            try:
                v = fn()
                for w in (v, *(v if isinstance(v, tuple) else ()), *[getattr(v, n) for n in ("prob", "means", "covs", "rho") if hasattr(v, n)], *(v.values() if isinstance(v, dict) else ())):
                    try:
                        if isinstance(w, pd.DataFrame): w.iloc[:, :] = .5; w.columns = [f"z{i}" for i in range(w.shape[1])]
                        elif isinstance(w, np.ndarray): w[...] = .5
                        elif isinstance(w, dict): w.clear()
                    except Exception: pass
            except Exception: pass

def observe(s, k, cop):
    out = []
    def part(name, fn):
        st = np.random.get_state()
        v, e = s.run(name, fn)
        np.random.set_state(st)
        if e is not None: out.append(dict(part=name, text=type(e).__name__, v=[]))
        elif isinstance(v, str): out.append(dict(part=name, text=v, v=[]))
        else: out.append(dict(part=name, text="", v=fl(v)))
    part("params", lambda: flat(cop.params))
    part("sample", lambda: np.asarray(cop.random(3, seed=7), float))
    part("names", lambda: ",".join(map(str, getattr(cop.random(2, seed=1), "columns", []))))
    part("log density", lambda: cop.pdf(k.pts, log=True))
    if k.fam != "student" and (k.d == 2 or k.fam not in ("gaussian", "marginal", "gmc")) and not (k.fam == "marginal" and k.inner == "student"): part("distribution", lambda: cop.cdf(k.pts))
    if k.fam not in ("empirical", "indep"): part("bounds", lambda: [np.nan if x is None else x for b in cop.bounds for x in np.ravel(b)] if k.fam != "gmc" else [0])
    part("dimension", lambda: [cop.dim])
    part("summary", lambda: str(cop.summary()))
    part("fit report", lambda: str(cop.summary("fit")))
    if k.fam in ("gaussian", "student"): part("sigma", lambda: cop.sigma)
    if k.fam == "empirical": part("data", lambda: np.asarray(cop.data, float)); part("smoothing", lambda: str(cop.smoothing))
    return out

per = 400 if a.thorough else 42
for fi, fam in enumerate(FAMS):
    pick = rng.permutation(len(a.gen_data))
    # most of the histories taken are varied ones
    varied = [i for i in pick if len({(h["op"], h["k"]) for h in a.gen_data[i]["hist"]}) > 3]
    pick = [*varied[:per * 2 // 3], *[i for i in pick if i not in set(varied[:per * 2 // 3])][:per - per * 2 // 3]]
    for n, gi in enumerate(pick):
        k = Kind(fam, 2 + (n + fi) % 2, n)
        first = k.make(); objs = [first]
        s = tr.session(f"{fam} d={k.d} {n}")
        fresh = observe(s, k, first)      # how a new object answers
        if fam not in ("empirical", "marginal"): fresh = FIRST.setdefault((fam, k.d), fresh)       # the first of its kind ever
        if n % 2:
            k.assign(first, n + 2) if n % 4 == 1 else k.fit(first, True, n)
        s.s["init"] = dict(obs=observe(s, k, first))
        for t, h in enumerate([*a.gen_data[gi]["hist"], dict(op="new", x=0, y=0, k="")]):
            op, x, how = h["op"], h["x"], h["k"]; bad = ""; free = 0
            if op == "new": _, e = s.run("new", lambda: objs.append(k.make()))
            elif op == "copy": _, e = s.run("copy", lambda: objs.append(copy.deepcopy(objs[x - 1]) if how == "deep" else pickle.loads(pickle.dumps(objs[x - 1]))))
            elif op == "adopt":
                v, e = s.run("adopt", lambda: k.adopt(objs[x - 1], objs[h["y"] - 1]))
                free = x; op = "adopt" if v is not False else "change"
            elif op == "change":
                free = x
                _, e = s.run("change", lambda: k.assign(objs[x - 1], n + t) if how == "assign" else k.fit(objs[x - 1], how == "table", n + t))
            else:
                if how == "scribble": free = x
                _, e = s.run("ask", lambda: {"refused": k.refuse, "answers": k.answers, "scribble": k.scribble}[how](objs[x - 1], n + t))
            # whether a fit to data of this kind succeeds is the business of other properties
            if e is not None and not (op == "change" and isinstance(e, (ValueError, np.linalg.LinAlgError))): bad = repr(e)[:150]
            tw = k.twin(objs[x - 1]) if op in ("change", "adopt") and not bad else None
            s.note(op, f"{fam}(dim={k.d}): {op} {how} of object {x} after {[(q['op'], q['k'], q['x']) for q in a.gen_data[gi]['hist'][:t]]}", x=x, y=h["y"], free=free, bad=bad, twin=observe(s, k, tw) if tw is not None else [],
                   obs=[observe(s, k, o) for o in objs] if not bad else [], fresh=fresh if op == "new" else [])
            if bad: break
tr.save()
