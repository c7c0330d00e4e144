"""C23: special functions, threaded and serial."""
import os
os.environ["OMP_NUM_THREADS"] = "4"
from hx import *
import ctypes
from concurrent.futures import ThreadPoolExecutor
from copulae.special.debye import debye_1, debye_2
from copulae.special.dilog import dilog, dilog_complex
from copulae.special.clausen import clausen
from copulae.special import special_func as sf, trig

a = parse(); rng = a.rng; tr = Trace(a.out); R = 8 if a.thorough else 1
try: omp = ctypes.CDLL("libgomp.so.1")
except OSError: omp = None
def threads(w):
    if omp is not None: omp.omp_set_num_threads(int(w))

def parts(v):
    v = np.asarray(v); return fl(v.real), fl(v.imag)
def arrange(x, n):
    """the same numbers as a caller may hold them: (argument, shape of the answer)"""
    x = np.asarray(x); m = x.size
    if m == 1: return [x[0].item(), x[0], x, x.tolist(), x.reshape(1, 1)][n % 5], []
    k = n % 8; half = m // 2
    if k == 0: return x.tolist(), [m]
    if k == 1 and m % 2 == 0: return x.reshape(2, half), [2, half]
    if k == 2 and m % 2 == 0: return np.asfortranarray(x.reshape(2, half)), [2, half]
    if k == 3 and m % 4 == 0: return x.reshape(2, m // 4, 2), [2, m // 4, 2]
    if k == 4: return np.repeat(x, 2)[::2], [m]
    if k == 5: return pd.Series(x, index=range(5, 5 + m)), [m]
    if k == 6: y = x.copy(); y.flags.writeable = False; return y, [m]
    return x, [m]
def call(sess, name, fn, x, n, arr=None, show=None, **args):
    """evaluates fn on the numbers x in layout n"""
    X, shape = (arr or arrange)(x, n); before = np.array(X)
    key = f"{name}({show or repr(X)[:160]})"
    v, e = sess.run(key, lambda: fn(X))
    ok = e is None and np.size(v) == np.size(x) and (len(np.atleast_1d(x)) == 1 or list(np.shape(v)) == shape)
    re, im = parts(v) if ok else ([], [])
    xr, xi = parts(x)
    sess.note("val", key, fn=name, x=[list(p) for p in zip(xr, xi)], re=re, im=im, kept=bool(np.array_equal(before, np.asarray(X), equal_nan=True)), res=enc(e) if e else dict(EMPTY, k="ok"), **args)

def reals(kind, k):
    return dict(debye=lambda: np.abs(np.concatenate([10 ** rng.uniform(-9, 3.2, k), rng.uniform(0, 45, k), [0., 4., 35.35, 35.4, 708., 710.]])),
                line=lambda: np.concatenate([rng.normal(size=k) * 3, rng.choice([-1, 1], k) * 10 ** rng.uniform(-8, 8, k), 1 + rng.normal(size=k) * .02, 1 + rng.choice([-1, 1], k) * 10 ** rng.uniform(-14, -1, k), rng.uniform(-.3, 1.1, k), [0., 1., -1., 2., .5, .25, 1.01]]),
                circle=lambda: np.concatenate([rng.uniform(-7, 7, k), rng.choice([-1, 1], k) * 10 ** rng.uniform(-9, 4, k), np.pi * rng.randint(-9, 10, k), np.pi * rng.randint(-9, 10, k) + rng.normal(size=k) * 1e-7, [0., np.pi, -np.pi, 2 * np.pi]]),
                positive=lambda: np.concatenate([10 ** rng.uniform(-15, 2.7, k), rng.uniform(.5, .9, k), [np.log(2), .7, .69, 36.7, 745.]]),
                exponent=lambda: np.concatenate([rng.normal(size=k) * 20, rng.uniform(-745, 745, k), rng.normal(size=k) * 1e-3, [0., 37., -37., 700., -700., 5000.]]),
                turns=lambda: np.concatenate([rng.uniform(-6, 6, k), rng.randint(-40, 41, k) / 4, rng.randint(-9, 10, k) / 2 + rng.normal(size=k) * 1e-6, rng.uniform(-1e3, 1e3, k)]))[kind]()

DOM = dict(debye_1="debye", debye_2="debye", dilog="line", clausen="circle", log1mexp="positive", log1pexp="exponent",
           cospi="turns", cospi2="turns", sinpi="turns", sinpi2="turns", tanpi="turns", tanpi2="turns")
FN = dict(debye_1=debye_1, debye_2=debye_2, dilog=dilog, clausen=clausen, log1mexp=sf.log1mexp, log1pexp=sf.log1pexp, **{n: getattr(trig, n) for n in ("cospi", "cospi2", "sinpi", "sinpi2", "tanpi", "tanpi2")})
def away(name, x):
    """tangents stay off their poles"""
    if name == "tanpi": return x[np.abs((x % 1) - .5) > .01]
    if name == "tanpi2": return x[np.abs((x % 2) - 1) > .01]
    return x
s = tr.session("real arguments")
j = 0
for name, dom in DOM.items():
    x = away(name, reals(dom, 12 * R)); rng.shuffle(x)
    call(s, name, FN[name], x, 7)
    while len(x):
        k = int(rng.choice([1, 2, 3, 4, 8, 12])); y, x = x[:k], x[k:]; j += 1
        call(s, name, FN[name], y, int(rng.randint(40)))
    call(s, name, FN[name], np.array([], float), 7)
    for n in range(5): call(s, name, FN[name], np.array([3, 0 if name != "log1mexp" else 1, 2, 5])[:[1, 4, 2, 3, 4][n]] * (2 if name == "tanpi2" else 1), n)
    call(s, name, FN[name], np.array([3], int), 0)
    if name in ("debye_1", "debye_2", "dilog", "clausen"):
        for th in (True, False): call(s, name, lambda v: FN[name](v, th), reals(dom, 4), 7); call(s, name, lambda v: FN[name](v, threaded=th), reals(dom, 3)[:8], j)

# points of the design model
real = [g["v"][0] for g in a.gen_data if g["kind"] == "real"]; plane = [g["v"] for g in a.gen_data if g["kind"] == "complex"]
s = tr.session("grid of the model")
X = np.array([float(v) for v in real])
for name in ("debye_1", "debye_2"): call(s, name, FN[name], X, 0)
for name in ("dilog", "clausen"): call(s, name, FN[name], X, 0); call(s, name, FN[name], -X, 1)
for name, y in (("log1mexp", X[X > 0]), ("log1pexp", X), ("log1pexp", -X)): call(s, name, FN[name], y, 0)

s = tr.session("complex arguments")
def polar(s, r, t, n, th=True):
    r, t = np.asarray(r, float), np.asarray(t, float); A, shape = arrange(r, n); B, _ = arrange(t, n); b4 = np.array(A), np.array(B)
    key = f"dilog_complex({A!r}, {B!r}, {th})"
    v, e = s.run(key, lambda: dilog_complex(A, B, th))
    ok = e is None and np.size(v) == r.size and (r.size == 1 or list(np.shape(v)) == shape)
    re, im = parts(v) if ok else ([], [])
    s.note("val", key, fn="dilog_polar", x=[list(p) for p in zip(fl(r), fl(t))], re=re, im=im, kept=bool(np.array_equal(b4[0], np.asarray(A)) and np.array_equal(b4[1], np.asarray(B))), res=enc(e) if e else dict(EMPTY, k="ok"))
def angles(k):
    return np.where(rng.randint(0, 3, k) > 0, rng.uniform(-np.pi, np.pi, k), rng.choice([-1, 1], k) * 10 ** rng.uniform(-6, 0, k))
def moduli(k):
    kind = rng.randint(0, 4, k)
    return np.choose(kind, [10 ** rng.uniform(-6, 4, k), rng.uniform(0, 1, k), 1 + rng.choice([-1, 1], k) * 10 ** rng.uniform(-15, -1, k), rng.uniform(.7, 3, k)])
P = np.array([[float(x) for x in v] for v in plane])
polar(s, P[:, 0], P[:, 1], 0); polar(s, P[:, 0], P[:, 1], 0, False)
for i in range(40 * R):
    k = int(rng.choice([1, 2, 4, 8])); r, t = moduli(k), angles(k)
    polar(s, r, t, int(rng.randint(40)), bool(rng.randint(2)))
    z = moduli(k) * np.exp(1j * angles(k))
    call(s, "dilog_complex", dilog_complex, z, int(rng.randint(40)))
r = np.concatenate([moduli(6), [0., 0., 1., 1., 1., 2., .5, 1.], 1 + 10 ** rng.uniform(-6, 3, 10)]); t = np.concatenate([np.zeros(3), np.full(3, np.pi), [0., 1., 0., np.pi, -np.pi, np.pi, np.pi / 2, np.pi / 3], np.zeros(10)])
polar(s, r, t, 0); polar(s, r, t, 1, False)
for q in range(len(r)): polar(s, r[q:q + 1], t[q:q + 1], q)
for bad in (([1., 2.], [1.]), ([1.], [1., 2., 3.]), (np.ones((2, 2)), np.ones(3))): s.ev("refuse", f"dilog_complex{bad}", lambda: dilog_complex(*bad))

s = tr.session("polylogarithm")
def pz(k):
    kind = rng.randint(3)
    if kind == 0: return rng.choice([-1, 1], k) * 10 ** rng.uniform(-4, 2, k)
    if kind == 1: return rng.uniform(-1, .98, k)
    z = moduli(k) * np.exp(1j * angles(k)); return z[np.abs(z - 1) > .02] if np.all(np.abs(z - 1) > .02) else z + .3 - .4j
for i in range(150 * R):
    order = int(rng.choice([2, 1, 0, -1, -2, -3, -4, -6, -9, -14, -20, -33])); k = int(rng.choice([1, 2, 4, 8])); z = pz(k); log = rng.randint(4) == 0
    if log: z = rng.uniform(.01, .99, k)
    if not np.iscomplexobj(z):
        z = np.where(np.abs(z - 1) < .02, .5 if log else 3., z)
        if order == 1: z = np.where(z > 1, -z, z)
    m = "default" if order > 0 else str(rng.choice(["default", "neg-stirling", "neg-eulerian", "Neg-Eulerian"]))
    so = [order, float(order), np.int64(order)][rng.randint(3)]
    call(s, "poly_log", lambda v: sf.poly_log(v, so, m, log) if rng.randint(2) else sf.poly_log(v, so, method=m, log=log), z, int(rng.randint(40)), show=f"{z!r}, {so}, {m}, log={log}", s=order, m="eulerian" if "uler" in m else "stirling", log=bool(log), real=not np.iscomplexobj(z))
for z, o, m in ((.5, .5, "default"), (.5, 3, "default"), (.5, -1.5, "neg-stirling"), (.5, 2, "neg-eulerian"), (.5, -1, "exact"), ([.1, .2], 7, "default")): s.ev("refuse", f"poly_log({z}, {o}, {m})", lambda: sf.poly_log(z, o, m))

s = tr.session("sums of logarithms")
for i in range(60 * R):
    n, d = int(rng.randint(1, 9)), int(rng.choice([1, 2, 2, 3, 5])); M = np.round(rng.normal(size=(n, d)) * [1, 30, 400][i % 3] + rng.choice([0, 700, -900]), 3)
    if rng.randint(3) == 0: M[rng.randint(n), :] = -np.inf
    if rng.randint(4) == 0: M[:, rng.randint(d)] = -np.inf
    off, args = None, (); kind = int(rng.randint(4)); top = np.where(np.isneginf(M.max(0)), 0, M.max(0))
    if kind == 1 and top.max() - top.min() < 600: args = (float(np.round(top.max(), 1)),)
    elif kind == 2: args = ((top + rng.uniform(-5, 5, d)).tolist(),)
    X = M[:, 0] if d == 1 and rng.randint(2) else np.asfortranarray(M) if rng.randint(3) == 0 else M
    before = X.copy()
    v, e = s.run("log_sum", lambda: sf.log_sum(X, *args))
    ok = e is None and np.size(v) == d and (d == 1 or np.shape(v) == (d,))
    s.note("logsum", f"log_sum({X.tolist()}, {args})", rows=mat(M), got=fl(v) if ok else [], kept=bool(np.array_equal(before, X)), res=enc(e) if e else dict(EMPTY, k="ok"))
for key, fn in {"offset of another length": lambda: sf.log_sum(np.ones((3, 2)), [1., 2., 3.]), "three dimensions": lambda: sf.log_sum(np.ones((2, 2, 2)))}.items(): s.ev("refuse", "log_sum " + key, fn)

s = tr.session("threads")
TH = dict(debye_1=debye_1, debye_2=debye_2, dilog=dilog, clausen=clausen)
def compare(s, name, fn, arr, w, alone):
    """one array in parallel, twice, serially, one element at a time; and by several callers at once"""
    before = [x.copy() for x in arr]; threads(w)
    def go():
        one = [fn(*[x[i].item() for x in arr], bool(i % 2)) for i in alone]
        with ThreadPoolExecutor(3) as ex: many = list(ex.map(lambda q: fn(*arr, bool(q != 1)), range(3)))
        return [fn(*arr, True), fn(*arr, True), fn(*arr, False), *many], one
    v, e = s.run(f"{name} {len(arr[0])}", go)
    ok = e is None and all(np.shape(x) == arr[0].shape for x in v[0]) and all(np.ndim(o) == 0 for o in v[1])
    flat = [np.asarray(x).ravel() for x in v[0]] if ok else []
    s.note("same", f"{name} of {arr[0].shape} numbers, {w} threads", n=int(arr[0].size), re=[fl(x.real) for x in flat], im=[fl(x.imag) if np.iscomplexobj(x) else [] for x in flat], alone=[int(i) + 1 for i in alone],
           one=[fl(np.real(v[1])), fl(np.imag(v[1]))] if ok else [[], []], kept=all(np.array_equal(p, q) for p, q in zip(before, arr)), res=enc(e) if e else dict(EMPTY, k="ok"))
sizes = [(g["len"], g["w"]) for g in a.gen_data if g["kind"] == "threads" and g["len"] > 1]
big = [(int(rng.randint(1500, 4000)), w) for w in (2, 3, 4, 7) for _ in range(R)]
for n, w in sizes + big:
    for name, fn in TH.items():
        x = reals(DOM[name], n)[:n] if n < 10 else rng.permutation(reals(DOM[name], n // 4 + 1))[:n]
        if len(x) < 2: continue
        compare(s, name, fn, [x], w, range(len(x)) if n < 10 else rng.choice(len(x), 50, False))
    compare(s, "dilog_complex", dilog_complex, [moduli(n), angles(n)], w, range(n) if n < 10 else rng.choice(n, 50, False))
tr.save()
