"""C05: generators, inverse generators, derivatives, Pickands function."""
import itertools
from hx import *
from cops import *

a = parse(); rng = a.rng; tr = Trace(a.out)

def setp(s, cop, fam, par):
    s.ev("params", f"{fam} params={par}", lambda: assign(cop, fam, par), par=fl(par))

def forms(x, scalars=3):
    x = np.asarray(x, float)
    yield "vector", x, x
    yield "list", x.tolist(), x
    if len(x) >= 4: yield "matrix", x[:4].reshape(2, 2), x[:4]
    yield "series", pd.Series(x, index=[f"r{i}" for i in range(len(x))]), x
    for i in rng.choice(len(x), min(scalars, len(x)), replace=False):
        yield "scalar", float(x[i]), x[i:i + 1]
    yield "one", x[:1].copy(), x[:1]

def gen_calls(s, cop, fam, theta, u, scalars=3, only=None):
    for tag, arg, x in forms(u, scalars):
        k = f"{fam}({theta})"
        s.ev("ipsi", f"{k}.ipsi({tag})", lambda: cop.ipsi(arg), fam=fam, x=fl(x))
        inner = (x > 0) & (x < 1)
        if inner.all():
            s.ev("dipsi1", f"{k}.dipsi({tag}, 1)", lambda: cop.dipsi(arg), fam=fam, x=fl(x))
            s.ev("dipsi2", f"{k}.dipsi({tag}, 2)", lambda: cop.dipsi(arg, 2), fam=fam, x=fl(x))
        s.ev("undo", f"{k}.psi(ipsi({tag}))", lambda: cop.psi(cop.ipsi(arg)), fam=fam, x=fl(x))
        if fam == "gumbel":
            s.ev("A", f"{k}.A({tag})", lambda: cop.A(arg), fam=fam, x=fl(x))
            if inner.all() and tag != "matrix":
                s.ev("dAdu", f"{k}.dAdu({tag})", lambda: cop.dAdu(arg), fam=fam, x=fl(x))

def psi_calls(s, cop, fam, theta, t):
    for tag, arg, x in forms(t):
        s.ev("psi", f"{fam}({theta}).psi({tag})", lambda: cop.psi(arg), fam=fam, x=fl(x))

by = {}
for g in a.gen_data:
    by.setdefault(g["fam"], {}).setdefault(float(g["theta"]), []).append(float(g["u"]))
S = np.array([0., 1e-9, 1e-4, .003, .05, .3, .9, 1.7, 4., 11., 40.])
for fam, confs in sorted(by.items()):
    s = tr.session(f"levels {fam}"); cop = make(fam, 2)
    keys = sorted(confs)
    for t in [keys[i] for i in rng.permutation(len(keys))]:
        setp(s, cop, fam, [t])
        gen_calls(s, cop, fam, t, sorted(confs[t]))
        psi_calls(s, cop, fam, t, S)
        ends = np.array([1., 0.]) if fam != "frank" or t > 0 or t <= 0 else None
        s.ev("ipsi", f"{fam}({t}).ipsi(ends)", lambda: cop.ipsi(ends.copy()), fam=fam, x=fl(ends))
        s.ev("undo", f"{fam}({t}).psi(ipsi(ends))", lambda: cop.psi(cop.ipsi(ends.copy())), fam=fam, x=fl(ends))
        if fam == "gumbel":
            s.ev("A", f"gumbel({t}).A(ends)", lambda: cop.A(ends.copy()), fam=fam, x=fl(ends))
            for e in (0., 1., 0, 1): s.ev("A", f"gumbel({t}).A({e!r})", lambda: cop.A(e), fam=fam, x=fl([e]))
        s.ev("psi", f"{fam}({t}).psi(int)", lambda: cop.psi(2), fam=fam, x=fl([2.]))
        s.ev("psi", f"{fam}({t}).psi(int list)", lambda: cop.psi([0, 1, 3]), fam=fam, x=fl([0., 1., 3.]))
for rep in range(12 if a.thorough else 3):
    for fam in ARCH:
        for d in (2, 3, 4):
            s = tr.session(f"random {fam} d={d}"); cop = make(fam, d)
            for q in range(4):
                par = rand_par(rng, fam, d, strong=q == 3, weak=q == 0)
                setp(s, cop, fam, par)
                gen_calls(s, cop, fam, par[0], np.concatenate([rng.rand(5), 10 ** rng.uniform(-4, -1, 2), 1 - 10 ** rng.uniform(-4, -1, 2)]), 1)
                psi_calls(s, cop, fam, par[0], 10 ** rng.uniform(-8, 1.5, 6))
                u = rng.rand(d)
                if rng.rand() < .3: u[0] = 1.
                perms = np.array(list(itertools.permutations(u)))
                s.ev("perm", f"{fam}(dim={d}).cdf(permutations)", lambda: cop.cdf(perms), fam=fam, umin=f(u.min()))
tr.save()
