"""C02: distribution functions."""
from hx import *
from cops import *

a = parse(); rng = a.rng; tr = Trace(a.out)

def setp(s, cop, fam, par):
    s.ev("params", f"{fam} params={par}", lambda: assign(cop, fam, par), par=fl(par) if par else [])

def cdf(s, cop, fam, d, pts, form):
    P = np.array(pts, float)
    if form == "row": arg = P[0]; pts = pts[:1]
    elif form == "list": arg = P.tolist()
    elif form == "df": arg = pd.DataFrame(P, columns=[f"x{i}" for i in range(d)])
    else: arg = P
    s.ev("cdf", f"{fam}(dim={d}).cdf({form} {P.shape})", lambda: cop.cdf(arg), fam=fam, d=d, u=[fl(p) for p in pts])

# grid points of the design model: one copula object per (family, dimension), parameters visited twice
by = {}
for g in a.gen_data:
    by.setdefault((g["fam"], g["d"]), {}).setdefault(tuple(float(x) for x in g["par"]), []).append([float(x) for x in g["u"]])
for (fam, d), confs in sorted(by.items()):
    n_obj = 2 if fam == "gaussian" else 1
    items = [(p, pts[k:k + 64]) for p, pts in sorted(confs.items()) for k in range(0, len(pts), 64)]
    for ob in range(len(confs) if fam == "gaussian" else 2):
        s = tr.session(f"grid {fam} d={d} #{ob}")
        cop = make(fam, d)
        mine = [it for k, it in enumerate(items) if k % (len(confs) if fam == "gaussian" else 2) == ob]
        for k in rng.permutation(len(mine)):
            par, pts = mine[k]
            if fam != "indep": setp(s, cop, fam, list(par))
            cdf(s, cop, fam, d, pts, ["arr", "list", "df"][k % 3])
            for _ in range(3):
                cdf(s, cop, fam, d, [pts[rng.randint(len(pts))]], "row")
# seeded parameters and points, higher dimensions
for rep in range(6 if a.thorough else 1):
    for fam in ("clayton", "frank", "gumbel", "gaussian", "indep"):
        for d in ((2, 3) if fam == "gaussian" else (2, 3, 4, 5, 8)):
            s = tr.session(f"random {fam} d={d}")
            cop = make(fam, d)
            for it in range(6):
                par = rand_par(rng, fam, d, it > 3, it == 0)
                if fam != "indep": setp(s, cop, fam, par)
                n = 4 if fam == "gaussian" and d == 3 else 24
                pts = []
                for _ in range(n):
                    u = rng.rand(d)
                    m = rng.randint(7 if it > 3 else 5)
                    if m == 0: u[rng.rand(d) < .5] = 1.0
                    elif m == 1: u = u ** 6 * .999 + .0005
                    elif m == 2: u[rng.randint(d)] = rng.choice([0., 1.])
                    elif m == 3: u = np.round(u * 3) / 3
                    elif m > 4: u = np.clip(u[0] + .03 * rng.normal(size=d) * u[0] * (1 - u[0]), 0, 1)
                    pts.append(u.tolist())
                cdf(s, cop, fam, d, pts, "arr")
    # many dimensions
    for fam, ds in (("clayton", (20, 64)), ("frank", (20, 48, 80)), ("gumbel", (20, 45, 75))):
        for d in ds:
            d += int(rng.randint(4))
            s = tr.session(f"many dimensions {fam} d={d}")
            cop = make(fam, d)
            for it in range(2):
                setp(s, cop, fam, rand_par(rng, fam, d))
                pts = [rng.uniform(.5, 1, d), 1 - rng.rand(d) ** 2 / d, np.where(rng.rand(d) < .1, rng.rand(d), 1.), np.clip(rng.uniform(.05, .95) + .04 * rng.normal(size=d), .01, .99)]
                cdf(s, cop, fam, d, [q.tolist() for q in pts], "arr")
tr.save()
