"""C18: mixture parameter sets."""
from hx import *
from copulae import GaussianMixtureCopula
from copulae.mixtures.gmc.parameter import GMCParam

a = parse(); rng = a.rng; tr = Trace(a.out)
SIZES = [(2, 2), (1, 2), (3, 2), (2, 3), (2, 1), (3, 3), (1, 1), (4, 2), (1, 3), (2, 4)]

def simplex(m):
    w = rng.gamma(1.5, size=m); w = w / w.sum()
    return w
def pd_cov(d, scale=1.0):
    A = rng.normal(size=(d, d)); S = A @ A.T + .2 * np.eye(d)
    return scale * S * np.outer(s := rng.uniform(.3, 3, d), s)
def prob(c, m):
    w = simplex(m)
    if c == "tuple": return tuple(w.tolist())
    if c == "edge": w = np.r_[0., simplex(m - 1)] if m > 1 else w; return rng.permutation(w)
    if c == "onehot": return np.eye(m, dtype=int)[rng.randint(m)].tolist()
    e = [.25, 1e-2, 1e-4][rng.randint(3)]
    if c == "negative":
        if m > 2 and rng.randint(2): w = simplex(m - 1) + e / (m - 1); return rng.permutation(np.r_[-e, w])     # none above one
        return np.r_[-e, 1 + e, np.zeros(m)][:m]
    if c == "above": return np.r_[1 + e, -e, np.zeros(m)][:m]
    if c == "sum": return w * rng.choice([.9, 1.1, .991, 1.009, .9997, 1.0003])
    if c == "short": return w[:-1]
    if c == "long": return np.r_[w, 0.]
    if c == "nan": w[rng.randint(m)] = np.nan
    return w
def means(c, m, d):
    x = rng.normal(size=(m, d)) * 3
    if c == "ints": return rng.randint(-3, 4, size=(m, d)).tolist()
    if c == "fortran": return np.asfortranarray(x)
    if c == "rows": return rng.normal(size=(m + 1, d))
    if c == "cols": return rng.normal(size=(m, d + 1))
    if c == "flat": return x.ravel()
    if c == "transposed": return rng.normal(size=(d, m)) if m != d else rng.normal(size=(d, m, 1))
    return x
def covs(c, m, d):
    S = np.array([pd_cov(d) for _ in range(m)]); k = rng.randint(m)
    if c == "lists": return S.tolist()
    if c == "tiny": return S * 1e-8
    if c == "singular": v = rng.randint(-2, 3, size=d).astype(float); S[k] = np.outer(v, v)
    if c == "repairable" and d > 1:
        R = np.full((d, d), -.95 if d > 2 else 1.3); R[0, -1] = R[-1, 0] = 1.2; np.fill_diagonal(R, 1); s = rng.uniform(.5, 2, d); S[k] = R * np.outer(s, s)
    if c == "asymmetric":
        if d == 1: return S[:, :, 0]
        S[k, 0, 1] += rng.choice([.3, 1e-2, 1e-3]) * max(1, abs(S[k, 0, 1]))
    if c == "negative": S[k] = -S[k]
    if c == "count": return np.concatenate([S, S[:1]])
    if c == "dims": return np.array([pd_cov(d + 1) for _ in range(m)])
    if c == "nan": S[k, 0, 0] = np.nan
    if c == "flat": return S.ravel()
    return S
def val(x):
    if x is None: return dict(EMPTY, shape=[-1])
    try: A = np.asarray(x, float)
    except (TypeError, ValueError): return dict(EMPTY, k="ragged", shape=[-1])
    return dict(EMPTY, k="arr", shape=list(A.shape), v=fl(A))
NOTHING = dict(prob=EMPTY, means=EMPTY, covs=EMPTY)
def now(p):
    return NOTHING if p is None else dict(prob=enc(p.prob), means=enc(p.means), covs=enc(p.covs))
def whole(m, d, bad=""):
    B = {"prob": ["negative", "sum", "long"], "means": ["rows", "cols", "flat"], "covs": ["asymmetric", "negative", "count", "nan"]}
    pick = lambda f, ok: B[f][rng.randint(len(B[f]))] if bad == f else ok[rng.randint(len(ok))]
    return dict(prob=prob(pick("prob", ["interior", "edge"]), m), means=means(pick("means", ["real", "ints"]), m, d), covs=covs(pick("covs", ["definite", "singular"]), m, d))
other = lambda k: [k + 1, k + 2, max(1, k - 1) if k > 1 else 2][rng.randint(3)]

def life(name, m, d, hist):
    s = tr.session(name, m=m, d=d)
    x = whole(m, d)
    P = s.ev("new", f"GMCParam({m}, {d}, ...)", lambda: GMCParam(m, d, x["prob"], x["means"], x["covs"]), form="direct", missing="", x={k: val(v) for k, v in x.items()})
    if P is None: return
    cop = GaussianMixtureCopula(m, d) if d > 1 else None     # a copula has at least two dimensions
    def look(tol="1e-12"):
        s.note("look", "parameter set", who="set", now=now(P), sizes=[int(P.n_clusters), int(P.n_dim)], tol=tol)
    def lookcop(tol):
        if d == 1: return
        p, e = s.run("copula.params", lambda: cop.params)
        s.note("look", "parameters of the copula", who="copula", now=now(p) if e is None else dict(NOTHING, prob=enc(e)), sizes=[m, d] if p is None else [int(p.n_clusters), int(p.n_dim)], tol=tol)
    look(); tol = "1e-12"
    for op, c in hist:
        if op in ("prob", "means", "covs"):
            v = prob(c, m) if op == "prob" else means(c, m, d) if op == "means" else covs(c, m, d)
            rec = val(v)
            s.ev("set", f"param.{op} = {c}", lambda: setattr(P, op, v), field=op, x=rec)
        elif op in ("new", "dict"):
            x = whole(m, d, c[4:] if c.startswith("bad_") else "")
            rec = {k: val(v) for k, v in x.items()}; miss = ""
            if c == "incomplete": miss = ["prob", "means", "covs"][rng.randint(3)]; del x[miss]
            q = s.ev("new", f"{op} with {c} {miss}", (lambda: GMCParam(m, d, x["prob"], x["means"], x["covs"])) if op == "new" else (lambda: GMCParam.from_dict(x)), form=op, missing=miss, x=rec)
            if q is not None: P = q
        elif op == "vector":
            def go():
                v = np.asarray(P.to_vector(), float)
                v = v[:-1] if c == "short" else np.r_[v, np.zeros(1 + rng.randint(d * (d + 1) // 2))] if c == "long" else v
                return GMCParam.from_vector(v if rng.randint(2) else v.tolist(), m, d)
            q, e = s.run(f"vector {c}", go)
            s.note("vector", f"from_vector(to_vector()) {c}", what=c, res=enc(e) if e is not None else dict(EMPTY, k="ok"), now=now(q))
            # the converted set takes the place of the old one
            if q is not None and c == "round": P = q; s.note("new", "the converted set", form="direct", missing="", x={k: val(getattr(q, k)) for k in ("prob", "means", "covs")}, res=dict(EMPTY, k="ok"))
        elif op == "iterate":
            def go():
                L = list(P); return dict(prob=val([t[0] for t in L]), means=val([t[1] for t in L]), covs=val([t[2] for t in L]))
            q, e = s.run("iterate", go)
            s.note("iterate", "list(param)", res=enc(e) if e is not None else dict(EMPTY, k="ok"), now=q or NOTHING)
            s.ev("render", "str(param)", lambda: str(P)); s.ev("render", "repr(param)", lambda: repr(P))
        elif d > 1:
            fits, arg, t = True, None, "1e-12"
            rec = {k: val(getattr(P, k)) for k in ("prob", "means", "covs")}
            if c == "param": arg = GMCParam(m, d, P.prob, P.means, P.covs)
            elif c == "dict": arg = dict(prob=P.prob.tolist(), means=P.means.tolist(), covs=P.covs.tolist())
            elif c == "vector": arg, t = P.to_vector(), "1e-4"; arg = arg.tolist() if rng.randint(2) else arg
            elif c in ("other_clusters", "other_dim", "other_both", "swapped"):
                fits = False; mm, dd = (other(m), d) if c == "other_clusters" else (m, other(d)) if c == "other_dim" else (d, m) if c == "swapped" and m != d else (other(m), other(d))
                x = whole(mm, dd); arg = GMCParam(mm, dd, x["prob"], x["means"], x["covs"]) if rng.randint(2) else x
            elif c == "vector_short": fits, arg = False, P.to_vector()[:-1]
            elif c == "vector_long": fits, arg = False, np.r_[P.to_vector(), 0.]
            elif c == "text": fits, arg = False, ["a", "b"] if rng.randint(2) else "gmc"
            if op == "assign": _, e = s.run(f"copula.params = {c}", lambda: setattr(cop, "params", arg))
            else:
                q, e = s.run(f"GaussianMixtureCopula({m}, {d}, {c})", lambda: GaussianMixtureCopula(m, d, arg))
                if q is not None: cop = q
            s.note("attach", f"{op} {c} to a copula of {m} clusters and {d} dimensions", form=c, fits=fits, x=rec, res=enc(e) if e is not None else dict(EMPTY, k="ok"))
            if e is None: tol = t
            lookcop(tol); tol = "1e-12"
        look()
    lookcop("1e-12")

H = a.gen_data
if len(H) > 6000: H = [H[i] for i in rng.permutation(len(H))[:6000]]
for k, h in enumerate(H):
    m, d = SIZES[(k * 7 + a.seed) % len(SIZES)]
    life(f"{m}x{d} {h}", m, d, h)
# longer lives
OPS = sorted({tuple(o) for h in a.gen_data for o in h})
for k in range(400 if a.thorough else 40):
    m, d = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    life(f"long {m}x{d} #{k}", m, d, [OPS[i] for i in rng.randint(len(OPS), size=12)])
tr.save()
