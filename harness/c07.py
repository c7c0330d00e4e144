"""C07: reads and writes of the correlation matrix of elliptical copulas."""
from hx import *
from cops import *
from copulae.elliptical.student import StudentParams

a = parse(); rng = a.rng; tr = Trace(a.out)
rot = 0

def reads(s, cop):
    d, n = cop.dim, cop.dim * (cop.dim - 1) // 2
    def r(fn):
        v, e = s.run("read", fn)
        try: return [] if e is not None else fl(v)
        except Exception: return []
    par = (lambda: cop.params.rho) if hasattr(cop, "_df") else (lambda: cop.params)
    return dict(params=r(par), sigma=r(lambda: cop.sigma), full=r(lambda: cop[:]), full2=r(lambda: cop[:, :]), pos=r(lambda: [cop[k] for k in range(n)]),
                pairs=r(lambda: [cop[i, j] for i in range(d) for j in range(d)]), rows=r(lambda: np.array([cop[i, :] for i in range(d)])),
                cols=r(lambda: np.array([cop[:, j] for j in range(d)]).T))

def write(s, cop, w):
    global rot; rot += 1
    d = cop.dim
    v = [float(t) for t in w["s"]]
    if w["form"] == "scalar": val = v[0] if rot % 2 else np.float64(v[0])
    elif w["form"] == "mat":
        k = int(round(len(v) ** .5)); val = np.array(v).reshape(k, k)
        if rot % 3 == 0: val = val.tolist()
    else: val = [np.array(v), list(v), tuple(v)][rot % 3]
    op, idx = w["op"], w["idx"]
    def go():
        if op == "pos": cop[idx[0]] = val
        elif op == "pair": cop[idx[0], idx[1]] = val
        elif op == "row": cop[idx[0], :] = val
        elif op == "col": cop[:, idx[0]] = val
        elif op == "all": cop[:] = val
        elif op == "all2": cop[:, :] = val
        elif hasattr(cop, "_df"):
            cop.params = StudentParams(4.5, np.array(val)) if rot % 2 else np.concatenate([[4.5], val])
        else: cop.params = val
    key = f"{type(cop).__name__}(dim={d}) {op}{idx} = {w['form']} {w['s']}"
    _, e = s.run(key, go)
    s.note("write", key, w=dict(op=op, idx=idx, form=w["form"], v=fl(v)), res=enc(e), reads=reads(s, cop))

for k, g in enumerate(a.gen_data):
    fam = ["gaussian", "student"][k % 2]
    s = tr.session(f"{fam} d={g['d']}", d=g["d"]); cop = make(fam, g["d"])
    for w in g["hist"]: write(s, cop, w)

def rnd_write(d):
    n = d * (d - 1) // 2
    edge = lambda x: float(rng.choice([-1., -.999, -.96, 0., .97, .999, 1.])) if rng.rand() < .12 else float(x)
    val = lambda lo=-1, hi=1: repr(edge(rng.uniform(lo, hi)))
    scale = rng.choice([.2, .6, 1.])
    bad = rng.rand() < .12
    op = str(rng.choice(["pos", "pair", "row", "col", "all", "all2", "vec"]))
    if op == "pos": return dict(op=op, idx=[int(rng.randint(n + 1) if bad else rng.randint(n))], form="scalar", s=[val(-scale, scale)])
    if op == "pair":
        i, j = rng.choice(d, 2, replace=False)
        if bad: j = rng.choice([i, d, -1])
        return dict(op=op, idx=[int(i), int(j)], form="scalar", s=[val(-scale, scale)])
    if op in ("row", "col"):
        i = int(rng.randint(d))
        if rng.rand() < .3: return dict(op=op, idx=[i], form="scalar", s=[val(-scale, scale)])
        v = [val(-scale, scale) for _ in range(d + (1 if bad else 0))]
        if not bad and rng.rand() < .1: v[rng.randint(d)] = "1.5"
        return dict(op=op, idx=[i], form="vec", s=v)
    if op in ("all", "all2"):
        R = np.eye(d); vec = rand_corr(rng, d) if rng.rand() < .6 else [edge(rng.uniform(-1, 1)) for _ in range(n)]
        k = 0
        for i in range(d):
            for j in range(i + 1, d): R[i, j] = R[j, i] = vec[k]; k += 1
        if bad: R[0, 1] += .1
        return dict(op=op, idx=[], form="mat", s=[repr(float(x)) for x in np.clip(R, -1, 1).ravel()])
    return dict(op=op, idx=[], form="vec", s=[repr(x) for x in (rand_corr(rng, d) if rng.rand() < .6 else [edge(x) for x in rng.uniform(-1, 1, n)])] + (["0.1"] if bad else []))

for rep in range(60 if a.thorough else 8):
    for fam in ("gaussian", "student"):
        for d in (2, 3, 4, 5, 7):
            s = tr.session(f"random {fam} d={d}", d=d); cop = make(fam, d)
            for _ in range(10): write(s, cop, rnd_write(d))
tr.save()
