"""C06: construction and assignment of parameters."""
from hx import *
from cops import *
from copulae.elliptical.student import StudentParams

a = parse(); rng = a.rng; tr = Trace(a.out)
rot = 0

def value(x):
    """the python object offered, in one of several equivalent forms"""
    global rot; rot += 1
    v = [float(t) for t in x["s"]]
    if x["form"] == "scalar":
        return [v[0], np.float64(v[0]), int(v[0]) if v[0] == int(v[0]) else v[0]][rot % 3]
    if x["form"] == "vec": return [np.array(v), list(v), tuple(v)][rot % 3]
    if x["form"] == "mat": return np.array(v).reshape(2, -1)
    if x["form"] == "named": return StudentParams(v[0], [np.array(v[1:]), list(v[1:])][rot % 2])
    return "abc"

def flat(fam, cop):
    p = cop.params
    if fam == "student": return np.concatenate([[p.df], np.ravel(p.rho)])
    return np.array(p, float).ravel()

def probes(s, fam, cop):
    d = cop.dim
    pt = np.linspace(.35, .6, d)
    out = []
    fns = [lambda: cop.pdf(pt, log=True), lambda: np.ravel(cop.tau), lambda: np.ravel(cop.lambda_), lambda: cop.random(3, seed=11)]
    if fam in ARCH: fns += [lambda: cop.psi([.3, 1.2]), lambda: cop.ipsi([.2, .8]), lambda: cop.cdf(pt)]
    else: fns += [lambda: cop.sigma, lambda: cop[0]]
    for fn in fns:
        v, e = s.run("probe", fn)
        out.append(enc(e if e is not None else v))
    return out

def construct(s, fam, d, x, v):
    box = {}
    def go():
        if fam in ARCH: c = CLS[fam](v, d) if rot % 2 else CLS[fam](theta=v, dim=d)
        elif fam == "student": c = CLS[fam](d, v) if rot % 2 else CLS[fam](dim=d, df=v)
        else: c = CLS[fam](d)
        box["c"] = c
        return None
    note(s, "construct", fam, d, x, v, go, box)
    return box.get("c")

def note(s, op, fam, d, x, v, go, box):
    key = f"{fam}(dim={d}) {op} {x['form']} {x['s']}"
    _, e = s.run(key, go)
    c = box.get("c")
    s.note(op, key, fam=fam, d=d, x=dict(form=x["form"], v=fl([float(t) for t in x["s"]])), res=enc(e), params=enc(flat(fam, c)) if c is not None else enc(None),
           probe=probes(s, fam, c) if c is not None else [])

def replay(fam, d, hist):
    s = tr.session(f"{fam} d={d}")
    cop = construct(s, fam, d, hist[0], value(hist[0]))
    if cop is None: return
    for x in hist[1:]:
        v = value(x)
        def go(): cop.params = v
        note(s, "assign", fam, d, x, v, go, dict(c=cop))

for g in a.gen_data: replay(g["fam"], g["d"], g["hist"])
# long seeded histories
for rep in range(40 if a.thorough else 10):
    for fam in ("clayton", "frank", "gumbel", "gaussian", "student"):
        d = int(rng.choice([2, 2, 3, 4, 5])); n = d * (d - 1) // 2
        hist = []
        for k in range(12):
            if fam in ARCH:
                t = float(rng.choice([rng.normal() * 3, 1 + rng.normal() * .01, rng.normal() * 1e-3, -1 + rng.normal() * 1e-6, 10 ** rng.uniform(-3, 3), -10 ** rng.uniform(-3, 3)]))
                hist.append(dict(form="scalar", s=[repr(t)]))
            else:
                m = n + (int(rng.choice([-1, 1, 2])) if rng.rand() < .3 else 0)
                v = [repr(float(r)) for r in rng.uniform(-.2, .2, max(m, 0))]
                if fam == "student": v = [repr(float(rng.choice([rng.uniform(.1, 30), 0., -rng.rand()])))] + v
                hist.append(dict(form="vec" if fam == "gaussian" or rng.rand() < .5 else "named", s=v))
        first = dict(form="scalar", s=["2.0"])
        replay(fam, d, [first] + hist)
tr.save()
