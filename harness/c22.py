"""C22: dependence measures, their inverses and derivatives, tail dependence."""
from hx import *
from cops import *
from copulae.special.optimize import find_root

a = parse(); rng = a.rng; tr = Trace(a.out)
GOOD = dict(clayton=dict(low=[-.4], mid=[1.5], high=[9.]), frank=dict(low=[-12.], mid=[.5], high=[40.]), gumbel=dict(low=[1.], mid=[1.8], high=[15.]),
            gaussian2=dict(low=[-.9], mid=[.2], high=[.95]), gaussian3=dict(low=[-.3, -.2, -.4], mid=[.1, 0., .6], high=[.9, .8, .85]),
            student2=dict(low=[3., -.8], mid=[11.5, .1], high=[1.2, .9]), student3=dict(low=[30., -.3, -.2, -.4], mid=[4., .1, 0., .6], high=[2.5, .9, .8, .85]))
BAD = dict(clayton=[-1.5], frank=None, gumbel=[.5], gaussian2=[.1, .2], gaussian3=[.1, .2], student2=[4., .1, .2], student3=[4., .1])

def base(fam): return fam.rstrip("23")
def current(fam, cop):
    return [float(cop.params)] if base(fam) in ARCH else fl_list(cop.params) if base(fam) == "gaussian" else [float(cop.params.df), *map(float, cop.params.rho)]
def fl_list(v): return [float(x) for x in v]
def tails(v):
    lo, up = np.atleast_1d(np.asarray(v.lower, float)), np.atleast_1d(np.asarray(v.upper, float))
    return dict(EMPTY, k="arr", shape=[2, len(lo)], v=fl(lo) + fl(up))
OFFER_RHO = ("frank", "gaussian")
def values(s, fam, cop, what):
    """every measure of the current parameter"""
    b = base(fam); k = f"{what}"
    s.ev("tau", k + ".tau", lambda: cop.tau, fam=b, x=[])
    s.ev("dtau", k + ".dtau()", lambda: cop.dtau() if rng.randint(2) else cop.dtau(None), fam=b, x=[])
    if b in OFFER_RHO: s.ev("rho", k + ".rho", lambda: cop.rho, fam=b, x=[])
    if b in OFFER_RHO: s.ev("drho", k + ".drho()", lambda: cop.drho(), fam=b, x=[])
    s.ev("tail", k + ".lambda_", lambda: cop.lambda_, conv=tails, fam=b, x=[])
def forms(x):
    x = np.asarray(x, float)
    yield "vector", x, x, [len(x)]
    yield "list", x.tolist(), x, [len(x)]
    m = len(x) // 2 * 2; yield "matrix", x[:m].reshape(2, -1), x[:m], [2, m // 2]
    yield "series", pd.Series(x, index=[f"r{i}" for i in range(len(x))]), x, [len(x)]
    for i in rng.choice(len(x), 4): yield "scalar", [float(x[i]), np.float64(x[i]), x[i]][i % 3], x[i:i + 1], []
def arguments(b, n):
    """parameter values for derivatives, and attainable tau and rho"""
    th = dict(clayton=lambda: np.r_[rng.uniform(-.95, 0, 2), 10 ** rng.uniform(-3, 3, n)], frank=lambda: np.r_[10 ** rng.uniform(-3, 3, n), -10 ** rng.uniform(-3, 2.5, n // 2), .1, .0999, -.1, .02],
              gumbel=lambda: 1 + 10 ** rng.uniform(-4, 3, n), gaussian=lambda: np.r_[rng.uniform(-.999, .999, n), 0.])
    tau = dict(clayton=lambda: np.r_[rng.uniform(-.99, .99, n), 0., .001, .999], frank=lambda: np.r_[rng.uniform(-.98, .98, n), .002, -.003, .995, -.995, .0112, .0109, 0.], gumbel=lambda: np.r_[rng.uniform(0, .999, n), 0., .9995],
               gaussian=lambda: np.r_[rng.uniform(-1, 1, n), 0., 1., -1.])
    b = "gaussian" if b == "student" else b
    return rng.permutation(th[b]()), rng.permutation(tau[b]()), rng.permutation(np.r_[rng.uniform(-1, 1, n), 0., 1., -1.])
def functions(s, fam, cop, what, n=6):
    b = base(fam); th, tau, rho = arguments(b, n)
    for tag, arg, x, sh in forms(th):
        s.ev("dtau", f"{what}.dtau({tag} {x.tolist()})", lambda: cop.dtau(arg), fam=b, x=fl(x), shape=sh)
        if b in OFFER_RHO: s.ev("drho", f"{what}.drho({tag} {x.tolist()})", lambda: cop.drho(arg), fam=b, x=fl(x), shape=sh)
    for tag, arg, x, sh in forms(tau):
        s.ev("itau", f"{what}.itau({tag} {x.tolist()})", lambda: cop.itau(arg), fam=b, x=fl(x), shape=sh)
    if b == "gumbel":
        x = -rng.uniform(.01, 1, 3); s.ev("itau", f"{what}.itau({x.tolist()})", lambda: cop.itau(np.r_[x, .5]), fam=b, x=fl(np.r_[x, .5]), shape=[4])
        s.ev("itau", f"{what}.itau({x[0]})", lambda: cop.itau(float(x[0])), fam=b, x=fl(x[:1]), shape=[])
    if b == "gaussian":
        for tag, arg, x, sh in forms(rho): s.ev("irho", f"{what}.irho({tag} {x.tolist()})", lambda: cop.irho(arg), fam=b, x=fl(x), shape=sh)
def write(s, fam, cop, par, what):
    v, e = s.run("params", lambda: assign(cop, base(fam), par))
    s.note("params", f"{what} params = {par}", par=fl(par), ok=e is None)

conf = [g for g in a.gen_data if "theta" in g]; hists = [g for g in a.gen_data if "steps" in g]
for g in conf:
    s = tr.session(f"{g['fam']}({g['theta']})"); cop = make(g["fam"], 2)
    write(s, g["fam"], cop, [float(g["theta"])], g["fam"]); values(s, g["fam"], cop, f"{g['fam']}({g['theta']})")
    functions(s, g["fam"], cop, g["fam"], 4)
for i in range(150 if a.thorough else 72):
    fam = ["clayton", "frank", "gumbel", "gaussian2", "gaussian3", "student2", "student3", "student4", "gaussian5"][i % 9]; d = int(fam[-1]) if fam[-1].isdigit() else 2 + (i % 2)
    b = fam.rstrip("2345"); cop = make(b, d); s = tr.session(f"{fam} at random parameters")
    for _ in range(4):
        par = rand_par(rng, b, d)
        if b == "student": par[0] = float([rng.uniform(1, 3), rng.uniform(3, 60), rng.randint(1, 9)][rng.randint(3)])
        write(s, fam.rstrip("45"), cop, par, fam)
        s.ev("tau", f"{fam}{par}.tau", lambda: cop.tau, fam=b, x=[]); s.ev("dtau", f"{fam}{par}.dtau()", lambda: cop.dtau(), fam=b, x=[])
        if b in OFFER_RHO: s.ev("rho", f"{fam}{par}.rho", lambda: cop.rho, fam=b, x=[]); s.ev("drho", f"{fam}{par}.drho()", lambda: cop.drho(), fam=b, x=[])
        s.ev("tail", f"{fam}{par}.lambda_", lambda: cop.lambda_, conv=tails, fam=b, x=[])
    functions(s, b, cop, fam, 8)
for r in (1., -1.):
    for b in ("gaussian", "student"):
        s = tr.session(f"{b} at correlation {r}"); cop = make(b, 2); write(s, b, cop, [r] if b == "gaussian" else [4., r], b)
        s.ev("tail", f"{b}({r}).lambda_", lambda: cop.lambda_, conv=tails, fam=b, x=[]); s.ev("tau", f"{b}({r}).tau", lambda: cop.tau, fam=b, x=[])
if not a.thorough: hists = [hists[i] for i in rng.permutation(len(hists))[:300]]
for h in hists:
    fam = h["fam"]; b = base(fam); d = 3 if fam[-1] == "3" else 2; cop = make(b, d); what = "/".join([fam, *h["steps"]]); s = tr.session(what)
    write(s, fam, cop, GOOD[fam]["mid"], what)
    for i, st in enumerate(h["steps"]):
        if st in GOOD[fam]: write(s, fam, cop, GOOD[fam][st], what)
        elif st == "refused":
            if BAD[fam] is None: continue
            v, e = s.run("params", lambda: assign(cop, b, BAD[fam])); s.note("params", f"{what} params = {BAD[fam]}", par=fl(BAD[fam]), ok=e is None)
        elif st == "fit":
            x = rng.normal(size=(40, 1)) + rng.normal(size=(40, d)); v, e = s.run("fit", lambda: cop.fit(x, method="itau" if b != "student" else "irho", verbose=0) if b != "student" else cop.fit(x, method="itau", fix_df=True, verbose=0))
            s.note("fit", f"{what} fit", par=fl(current(fam, cop)), ok=e is None)
        elif st == "inverse": s.run("itau", lambda: cop.itau([.3, .5]))
        else: s.run("dtau", lambda: cop.dtau(np.array([1.2, .5]) if b in ARCH else np.array([.2, .5])))
    values(s, fam, cop, what)

s = tr.session("roots")
for i in range(600 if a.thorough else 120):
    k = ["cubic", "exp", "rational"][i % 3]
    root = float(rng.choice([rng.uniform(-5, 5), 10 ** rng.uniform(-3, 3), -10 ** rng.uniform(-3, 2)])); amp = float(10 ** rng.uniform(-3, 3)) * (-1) ** rng.randint(2)
    if k != "cubic": root = float(rng.uniform(-5, 5))
    fn = dict(cubic=lambda x: amp * ((x - root) + (x - root) ** 3), exp=lambda x: amp * (np.exp(x - root) - 1), rational=lambda x: amp * (x - root) / (1 + x * x))[k]
    w = [(root - rng.uniform(.1, 3), root + rng.uniform(.1, 3)), (root + rng.uniform(.01, .5), root + rng.uniform(.6, 3)), (root - 3, root - rng.uniform(.01, .5))][rng.randint(3)]
    if min(abs(w[0]), abs(w[1]), abs(root) * 20) < .3 or not min(w) <= root <= max(w) and min(w[0] * root, w[1] * root) <= 0: w = (root - 1.5, root + 2.)
    if rng.randint(2): w = w[::-1]
    w = tuple(float(z) for z in w)
    s.ev("root", f"find_root({k} with root {root}, {w})", lambda: find_root(fn, *w), kind=k, root=f(root), refuse=False)
for nm, fn, w in (("exp", np.exp, (-10, 10)), ("1+x^2", lambda x: 1 + x * x, (-1, 1)), ("constant", lambda x: -2., (1, 3)), ("not callable", 3, (0, 1)), ("infinite", lambda x: x, (-np.inf, 3))):
    s.ev("root", f"find_root({nm}, {w})", lambda: find_root(fn, *w), kind=nm, root=f(0), refuse=True)
tr.save()
