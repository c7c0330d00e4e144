"""C03: densities."""
from hx import *
from cops import *

a = parse(); rng = a.rng; tr = Trace(a.out)

def setp(s, cop, fam, par):
    s.ev("params", f"{fam} params={par}", lambda: assign(cop, fam, par), par=fl(par) if par else [])

def pdf(s, cop, fam, d, pts, form):
    P = np.array(pts, float)
    if form == "row": arg = P[0]; pts = pts[:1]
    elif form == "list": arg = P.tolist()
    elif form == "df": arg = pd.DataFrame(P, columns=[f"x{i}" for i in range(d)])
    elif form == "F": arg = np.asfortranarray(P)
    else: arg = P
    s.ev("pdf", f"{fam}(dim={d}).pdf({form} {P.shape})", lambda: cop.pdf(arg), fam=fam, d=d, u=[fl(p) for p in pts])

by = {}
for g in a.gen_data:
    by.setdefault((g["fam"], g["d"]), {}).setdefault(tuple(float(x) for x in g["par"]), []).append([float(x) for x in g["u"]])
for (fam, d), confs in sorted(by.items()):
    ell = fam in ("gaussian", "student")
    n_obj = len(confs) if ell else 2
    items = [(p, pts[k:k + 40]) for p, pts in sorted(confs.items()) for k in range(0, len(pts), 40)]
    for ob in range(n_obj):
        s = tr.session(f"grid {fam} d={d} #{ob}")
        cop = make(fam, d)
        mine = [it for k, it in enumerate(items) if k % n_obj == ob]
        for k in rng.permutation(len(mine)):
            par, pts = mine[k]
            if fam != "indep": setp(s, cop, fam, list(par))
            pdf(s, cop, fam, d, pts, ["arr", "list", "df", "F"][k % 4])
            for _ in range(2):
                pdf(s, cop, fam, d, [pts[rng.randint(len(pts))]], "row")
# points outside the unit cube next to points inside
for fam in ARCH:
    for d in (2, 3):
        s = tr.session(f"outside {fam} d={d}")
        cop = make(fam, d)
        pars = {"clayton": [2., .5] + ([-.4] if d == 2 else [0.]), "frank": [3., 0.] + ([-4.] if d == 2 else [.7]), "gumbel": [2., 1., 4.5]}[fam]
        for t in pars:
            setp(s, cop, fam, [t])
            pts = []
            for bad in (-.2, 1.3, -1e-9, 1 + 1e-9, 5., -3.):
                for k in range(d):
                    p = rng.uniform(.2, .8, d); p[k] = bad; pts.append(p.tolist())
                    pts.append(rng.uniform(.2, .8, d).tolist())
            pts.append([-.5] * d); pts.append([1.5] * d)
            pdf(s, cop, fam, d, pts, "arr")
            for p in (pts[0], pts[-1], pts[1]): pdf(s, cop, fam, d, [p], "row")
            pdf(s, cop, fam, d, [pts[-1], pts[0]], "arr")
# seeded parameters and points, higher dimensions
for rep in range(6 if a.thorough else 1):
    for fam in ("clayton", "frank", "gumbel", "gaussian", "student", "indep"):
        for d in ((2, 3, 5) if fam == "student" else (2, 3, 4, 5, 6, 8, 10)):
            s = tr.session(f"random {fam} d={d}")
            cop = make(fam, d)
            for it in range(6):
                par = rand_par(rng, fam, d, it > 3, it == 0)
                if fam != "indep": setp(s, cop, fam, par)
                pts = []
                for _ in range(4 if fam == "student" else 16):
                    u = rng.uniform(.003, .997, d)
                    m = rng.randint(6 if it > 3 else 4)
                    if m == 0: u = .5 + (u - .5) * .02
                    elif m == 1: u = np.clip(u[0] + .02 * (u - .5), .002, .998)
                    elif m == 2: u = np.round(u * 3 + .5) / 4.5
                    elif m > 3: u = np.clip(u[0] + .03 * rng.normal(size=d) * u[0] * (1 - u[0]), 1e-4, 1 - 1e-4)
                    pts.append(u.tolist())
                pdf(s, cop, fam, d, pts, "arr")
    # many dimensions
    for fam, ds in (("clayton", (20, 64)), ("frank", (20, 48, 80)), ("gumbel", (20, 33, 45, 58, 75, 90)), ("gaussian", (16,))):
        for d in ds:
            d += int(rng.randint(4))
            s = tr.session(f"many dimensions {fam} d={d}")
            cop = make(fam, d)
            for it in range(3 if fam == "gumbel" else 2):
                par = [1 + float(10 ** [rng.uniform(-2, -1), rng.uniform(-1, -.5), rng.uniform(-.5, .8)][it])] if fam == "gumbel" else rand_par(rng, fam, d)
                setp(s, cop, fam, par)
                pdf(s, cop, fam, d, [rng.uniform(.03, .97, d).tolist(), np.clip(rng.uniform(.05, .95) + .04 * rng.normal(size=d), .01, .99).tolist()], "arr")
tr.save()
