"""C20: combinatorial numbers and Gumbel polynomials."""
from hx import *
from copulae.special import special_func as sf
from copulae.special.combinatorics import comb, perm
from copulae.archimedean.auxiliary import dsum_sibuya
from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly

a = parse(); rng = a.rng; tr = Trace(a.out)
ONE = dict(first=sf.stirling_first, second=sf.stirling_second, eulerian=sf.eulerian)
ROW = dict(first=sf.stirling_first_all, second=sf.stirling_second_all, eulerian=sf.eulerian_all)
def whole(v):
    """exact decimal rendering of an integer answer"""
    return str(v) if isinstance(v, int) and not isinstance(v, bool) else str(int(v)) if isinstance(v, np.integer) else str(int(v)) if float(v).is_integer() else repr(v)
def query(s, f, w, size):
    top = 12 if size == "small" else 47
    if w == "refused":
        n = int(rng.randint(0, 20))
        n, k = dict(above=(n, n + 1 + int(rng.randint(3))), below=(n, -1 - int(rng.randint(3))), text=("A", "B") if rng.randint(2) else (n, "x"), list=([1, 2], [3, 4]) if rng.randint(2) else (n, [1, 2]))[size]
        s.ev("entry", f"{f}({n!r}, {k!r})", lambda: ONE[f](n, k), refuse=True, conv=lambda v: dict(EMPTY, k="num", e=str(v)))
        return
    n = int(rng.randint(0 if f == "eulerian" or w == "entry" else 1, top + 1))
    if w == "entry":
        k = int(rng.randint(0, n + 1)); arg = [(n, k), (float(n), float(k)), (np.int64(n), np.int64(k)), (str(n), k)][rng.randint(4)]
        v, e = s.run("entry", lambda: ONE[f](*arg))
        s.note("entry", f"{f}{arg}", fn=f, n=n, x=k, got=[] if e else [whole(v)], res=enc(e) if e else dict(EMPTY, k="ok"), refuse=False)
    else:
        v, e = s.run("row", lambda: ROW[f](n))
        try: got = [] if e else [whole(x) for x in v]
        except TypeError: got = [repr(v)]
        s.note("row", f"{f}_all({n})", fn=f, n=n, got=got, res=enc(e) if e else dict(EMPTY, k="ok"), refuse=False)
        if w == "spoil" and not e:
            try:
                for i in range(len(v)): v[i] = -7
            except TypeError: pass      # an immutable answer

H = a.gen_data
for i, h in enumerate(H if a.thorough else [H[i] for i in rng.permutation(len(H))[:400]]):
    s = tr.session(" ".join("/".join(x) for x in h))
    for fam, w, size in h: query(s, fam, w, size)
s = tr.session("long history")
for _ in range(3000 if a.thorough else 400): query(s, ["first", "second", "eulerian"][rng.randint(3)], ["entry", "entry", "row", "spoil"][rng.randint(4)], ["small", "large"][rng.randint(2)])
s = tr.session("bounds")
for fam in ("first", "second", "eulerian"):
    for n in list(range(0, 7)) + [46, 47]:
        for k in range(n + 1):
            v, e = s.run("entry", lambda: ONE[fam](n, k)); s.note("entry", f"{fam}({n}, {k})", fn=fam, n=n, x=k, got=[] if e else [whole(v)], res=enc(e) if e else dict(EMPTY, k="ok"), refuse=False)
for n in (-1, -3, 2.5): s.ev("row", f"eulerian_all({n})", lambda: sf.eulerian_all(n), refuse=True)

R = 20 if a.thorough else 3
s = tr.session("combinations")
def layout(n, r):
    """pairs of arguments as scalars, vectors, matrices, or one against many"""
    k = rng.randint(5); n, r = np.asarray(n), np.asarray(r)
    if k == 0: return n[0].item(), int(r[0]), n[:1], r[:1], []
    if k == 1: return n[0].item(), r.tolist(), np.full(len(r), n[0]), r, [len(r)]
    if k == 2: return n, int(r[0]), n, np.full(len(n), r[0]), [len(n)]
    if k == 3: return n.reshape(2, -1), r.reshape(2, -1), n, r, [2, len(n) // 2]
    return n.tolist(), r, n, r, [len(n)]
for _ in range(150 * R):
    fn = ["comb", "perm"][rng.randint(2)]; log = bool(rng.randint(2)); kind = rng.randint(6)
    n = [lambda: rng.randint(0, 30, 6), lambda: rng.randint(0, 64 * 20, 6) / 64, lambda: rng.randint(150, 1000, 6), lambda: rng.uniform(0, 12, 6), lambda: rng.randint(30, 171, 6), lambda: -rng.uniform(.05, .95, 6)][kind]()
    r = rng.randint(0, 12, 6) if kind != 0 else np.minimum(rng.randint(0, 33, 6), 30)
    x, y, nn, rr, shape = layout(n, r)
    s.ev("comb", f"{fn}({x!r}, {y!r}, log={log})", lambda: (comb if fn == "comb" else perm)(x, y, log), f=fn, n=fl(nn), r=[int(i) for i in rr], log=log, shape=shape, refuse=False)
s = tr.session("signs")
for _ in range(80 * R):
    q = int(2 ** rng.randint(0, 7)); p = int(rng.randint(1, q + 1)); m = int(rng.randint(1, 9)); kind = rng.randint(6)
    d = rng.randint(0, 15, m); j = np.array([rng.randint(0, x + 1) for x in d])
    if kind == 0: x, y, j, d, shape = int(j[0]), int(d[0]), j[:1], d[:1], []
    elif kind == 1: d = np.full(m, d.max()); x, y, shape = j.tolist(), int(d[0]), [m]
    elif kind == 2: j = np.full(m, j.min()); x, y, shape = int(j[0]), d, [m]
    elif kind == 4 and m > 1:       # the shorter vector is recycled
        t = int(rng.randint(1, m)); j = np.array([rng.randint(0, d.min() + 1) for _ in range(t)]); x, y, shape = j, d, [m]; j = np.array([j[i % t] for i in range(m)])
    elif kind == 5 and m > 1:
        t = int(rng.randint(1, m)); d = d[:t] + 14; x, y, shape = j, d.tolist(), [m]; d = np.array([d[i % t] for i in range(m)])
    else: x, y, shape = j, d.tolist(), [m]
    s.ev("sign", f"sign_ff({p / q}, {x!r}, {y!r})", lambda: sf.sign_ff(p / q, x, y), p=p, q=q, n=[int(i) for i in j], d=[int(i) for i in d], shape=shape if m > 1 else [], refuse=False)
for bad in ((0., 1, 2), (1.2, 1, 2), (-.5, [1], [2]), (.5, -1, 2), (.5, 1, -2), (.5, [1, -1], [2, 3])): s.ev("sign", f"sign_ff{bad}", lambda: sf.sign_ff(*bad), refuse=True)
s = tr.session("polynomials")
def parts(v):
    v = np.asarray(v); return [fl(v.real), fl(v.imag)]
for _ in range(80 * R):
    m = int(rng.randint(1, 9)); k = int(rng.choice([1, 2, 5])); c = np.round(rng.normal(size=m) * 3, int(rng.randint(0, 4))); x = rng.normal(size=k) * 2
    if rng.randint(3) == 0: x = x + 1j * rng.normal(size=k)
    form = rng.randint(4); cc = [c, c.tolist(), tuple(c.tolist()), c][rng.randint(4)]; xx = x
    if form == 0: x = x[:1]; xx = x[0].item()
    elif form == 1: xx = x.tolist()
    elif form == 2 and k > 1: x = rng.normal(size=6); xx = x.reshape(2, 3)
    if m == 1 and rng.randint(2): cc = float(c[0])
    v, e = s.run("polyn_eval", lambda: sf.polyn_eval(cc, xx))
    ok = e is None and (np.shape(v) == np.shape(xx) or np.size(xx) == 1)
    re, im = parts(v) if ok else ([], [])
    s.note("polyn", f"polyn_eval({cc!r}, {xx!r})", c=fl(c), x=[fl([z.real, z.imag]) for z in x], re=re, im=im, res=enc(e) if e else dict(EMPTY, k="ok"), refuse=False)

def alphas(): return [lambda: rng.randint(1, 64) / 64, lambda: rng.uniform(.02, .99), lambda: 1 / rng.uniform(1.01, 6), lambda: 1.][rng.choice(4, p=[.3, .35, .3, .05])]()
s = tr.session("gumbel")
METHODS = ["sort", "horner", "direct", "log", "ds.direct", "diff"]
for i in range(240 * R):
    d = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 12, 15, 19, 20, 21, 22, 25, 30] + ([40, 45] if a.thorough else []))); al = float(alphas()); m = METHODS[i % 6]; log = bool(rng.randint(2))
    s.ev("coef", f"gumbel_coef({d}, {al}, {m}, log={log})", lambda: gumbel_coef(d, al, m.upper() if rng.randint(4) == 0 else m, log), d=d, al=f(al), m=m, log=log, refuse=False)
for i in range(240 * R):
    m = ["default", "pois", "direct", "log", "sort", "default"][i % 6]
    d = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20] if m != "default" else [2, 3, 5, 8, 12, 20, 21, 30, 31, 45, 60, 71, 95, 110])); al = float(alphas()); log = bool(rng.randint(2))
    if m == "default" and al == 1.: al = .9
    k = int(rng.choice([1, 2, 4])); lx = rng.uniform(-4, 3, k); shape = [k]; x = lx
    if k == 4 and rng.randint(2): x = lx.reshape(2, 2); shape = [2, 2]
    elif rng.randint(3) == 0: x = lx.tolist()
    s.ev("gpoly", f"gumbel_poly({x!r}, {al}, {d}, {m}, log={log})", lambda: gumbel_poly(x, al, d, m, log), d=d, al=f(al), m=m, log=log, lx=fl(lx), shape=shape, refuse=False)
s = tr.session("sibuya")
for i in range(200 * R):
    m = ["log", "direct", "diff"][i % 3]; log = bool(rng.randint(2)); al = float(alphas()); k = int(rng.randint(2, 6)); kind = rng.randint(6)
    x = rng.randint(0, 14, k); n = rng.randint(0, 9, k)
    if kind == 0: x, n = x[:1], n[:1]; X, N = int(x[0]), int(n[0])
    elif kind == 1: X, N = x.tolist(), int(n[0]); n = np.full(k, n[0])
    elif kind == 2: X, N = int(x[0]), n; x = np.full(k, x[0])
    elif kind == 3:
        t = int(rng.randint(1, k)); X, N = x, n[:t]; n = np.array([n[i % t] for i in range(k)])
    elif kind == 4:
        t = int(rng.randint(1, k)); X, N = x[:t].tolist(), n.tolist(); x = np.array([x[i % t] for i in range(k)])
    else: X, N = x, n.tolist()
    s.ev("sibuya", f"dsum_sibuya({X!r}, {N!r}, {al}, {m}, log={log})", lambda: dsum_sibuya(X, N, al, m, log), x=[int(v) for v in x], n=[int(v) for v in n], al=f(al), m=m, log=log, shape=[len(x)], refuse=False)
for key, fn in {
    "gumbel_coef alpha": lambda: gumbel_coef(3, 0.), "gumbel_coef alpha>1": lambda: gumbel_coef(3, 1.5), "gumbel_coef d": lambda: gumbel_coef(0, .5), "gumbel_coef d=2.5": lambda: gumbel_coef(2.5, .5), "gumbel_coef method": lambda: gumbel_coef(3, .5, "exact"),
    "gumbel_poly alpha": lambda: gumbel_poly([0.], -1., 3), "gumbel_poly alpha>1": lambda: gumbel_poly([0.], 1.1, 3), "gumbel_poly d": lambda: gumbel_poly([0.], .5, 0), "gumbel_poly method": lambda: gumbel_poly([0.], .5, 3, "exact"),
    "dsum_sibuya n": lambda: dsum_sibuya(3, -1, .5), "dsum_sibuya alpha": lambda: dsum_sibuya(3, 1, 0.), "dsum_sibuya alpha>1": lambda: dsum_sibuya(3, 1, 1.01), "dsum_sibuya method": lambda: dsum_sibuya(3, 1, .5, "exact"), "dsum_sibuya text": lambda: dsum_sibuya("a", 1, .5)}.items():
    s.ev("coef", key + " outside the domain", fn, refuse=True)
tr.save()
