"""C10: input forms of the evaluation methods."""
from hx import *
from cops import *
import inspect
from copulae import GaussianMixtureCopula, EmpiricalCopula, MarginalCopula

a = parse(); rng = a.rng; tr = Trace(a.out)

def orders(d):
    i = list(range(1, d + 1))
    return [i] + [o for o in [i[::-1], i[1:] + i[:1]] + [i[:k] + [i[k + 1], i[k]] + i[k + 2:] for k in range(d - 1)] if o != i]

def build(fam, d, known, names):
    """a copula with column-dependent answers; with its names known or not"""
    T = pd.DataFrame(rng.normal(size=(40, d)) + 1.2 * rng.normal(size=(40, 1)), columns=names)
    base, _, extra = fam.partition("_")
    if base == "indep": return IndepCopula(d, names if known else None)
    if base == "empirical": return EmpiricalCopula(T if known else T.to_numpy(), smoothing=extra)
    if base == "gmc":
        g = GaussianMixtureCopula(2, d)
        g.params = dict(prob=[.4, .6], means=np.arange(2 * d).reshape(2, d) * .15, covs=np.array([np.eye(d) * .3 + .1, np.diag(np.linspace(.2, .6, d))]))
        return g
    if base == "marginal":
        c = MarginalCopula(make(extra, d), [["norm", {"type": "logistic"}, {"type": "norm", "parameters": {"loc": .5}}, "laplace", "norm"][i] for i in range(d)])
        if known: c.fit(T, verbose=0, method="itau")
        else: assign(c._copula, extra, rand_par_for(extra, d))
        return c
    c = make(base, d)
    if known: c.fit(T, verbose=0, method="itau")
    assign(c, base, rand_par_for(base, d))
    return c

def rand_par_for(fam, d):
    if fam == "clayton": return [1.4]
    if fam == "frank": return [3.3]
    if fam == "gumbel": return [1.7]
    r = rand_corr(rng, d)
    return r if fam == "gaussian" else [5.] + r

def first_name(fn): return list(inspect.signature(fn).parameters)[0]

def form(kind, order, P, names):
    """the container; P has its columns in the copula's order, order says what goes where"""
    ix = [o - 1 for o in order]
    Q, lab = P[:, ix], [names[i] for i in ix]
    rows = list(range(1, len(P) + 1))
    one = Q[0]
    if kind == "list": return one.tolist(), [1]
    if kind == "tuple": return tuple(one.tolist()), [1]
    if kind == "vector": return one.copy(), [1]
    if kind == "series": return pd.Series(one, index=lab), [1]
    if kind == "frame_row": return pd.DataFrame(Q[1:2], columns=lab, index=["k"]), [2]
    if kind == "row_matrix": return Q[2:3].copy(), [3]
    if kind == "nested": return [one.tolist()], [1]
    if kind == "strided_row": return np.repeat(one, 2)[::2], [1]
    if kind == "ints": return np.array(one, dtype=int), [1]
    if kind == "f4": return np.array(one, dtype="f4"), [1]
    if kind == "ints_many": return np.array(Q, dtype=int), rows
    if kind == "f4_many": return np.array(Q, dtype="f4"), rows
    if kind == "matrix": return Q.copy(), rows
    if kind == "table": return pd.DataFrame(Q, columns=lab), rows
    if kind == "table_index": return pd.DataFrame(Q, columns=lab, index=[f"r{9 - i}" for i in range(len(Q))]).iloc[::-1], rows[::-1]
    if kind == "nested_many": return [tuple(r) for r in Q.tolist()], rows
    if kind == "fortran": return np.asfortranarray(Q), rows
    if kind == "strided": return np.repeat(np.repeat(Q, 2, 0), 2, 1)[::2, ::2], rows
    if kind == "readonly":
        Z = Q.copy(); Z.flags.writeable = False; return Z, rows
    raise KeyError(kind)

def bad(kind, P, d, names):
    if kind == "short": return P[0, :d - 1].tolist()
    if kind == "long": return np.append(P[0], .5)
    if kind == "wide": return np.column_stack([P, P[:, 0]])
    if kind == "narrow": return P[:, :d - 1]
    if kind == "cube": return np.stack([P, P])
    if kind == "wide_table": return pd.DataFrame(np.column_stack([P, P[:, 0]]))

FAMS = ["clayton", "frank", "gumbel", "gaussian", "student", "indep", "empirical_beta", "empirical_none", "empirical_checkerboard", "gmc", "marginal_gaussian", "marginal_gumbel", "marginal_indep"]
forms = {}
for g in a.gen_data: forms.setdefault((g["d"], g["known"]), []).append(g["form"])
NAMES = [["w", "x", "y", "z", "t"], [0, 1, 2, 3, 4], ["b", "a", "d", "c", "e"]]

for fam in FAMS:
    for (d, known0), fs in sorted(forms.items()):
        if d > 3 and not a.thorough and fam in ("frank", "gumbel", "empirical_none", "empirical_checkerboard", "gmc", "marginal_gaussian"): continue
        for known in (False, True):
            names = NAMES[int(rng.randint(3))][:d]
            try:
                cop = build(fam, d, known, names)
            except Exception as e:      # recorded: a copula that cannot be prepared has no answers
                s = tr.session(f"{fam} d={d} known={known}", known=False, d=d)
                s.note("base", f"{fam}(dim={d}) prepared", set="", order=[], v=[], bad="cannot be prepared: " + repr(e)[:200]); continue
            for meth in ("cdf", "pdf"):
                if meth == "pdf" and fam in ("empirical_none", "empirical_checkerboard"): continue
                if fam == "student" and meth == "cdf": continue      # no distribution function is offered
                fn = getattr(cop, meth)
                really = known and fam != "gmc"
                s = tr.session(f"{fam} d={d} {meth} known={known}", known=really, d=d)
                noise = 1e-12
                if meth == "cdf" and d > 2 and fam in ("gaussian", "gmc", "marginal_gaussian"): noise = 2e-4
                span = rng.uniform(.05, .95, (4, d))
                sets = dict(f8=span, f4=span.astype("f4").astype("f8"), ints=np.array([[1] * d, [0] + [1] * (d - 1), [1] * (d - 1) + [0]])[:, :d].astype(float))
                if fam.startswith("marginal"): sets["ints"] = sets["ints"] + np.arange(d)
                for set_, P in sets.items():
                    for o in orders(d) if set_ == "f8" else orders(d)[:1]:
                        vals, badv = [], ""
                        for r in P[:, [k - 1 for k in o]]:
                            v, e = s.run("base", lambda: fn(r[None, :].copy()))
                            if e is not None and set_ == "ints" and meth == "pdf": v = np.nan; 
                            elif e is not None or not np.isscalar(v): badv = repr(e if e is not None else v)[:120]; v = np.nan
                            vals.append(v)
                        s.note("base", f"{fam}(dim={d}).{meth}(rows alone, {set_}, order {o})", set=set_, order=o, v=fl(vals), bad=badv)
                if d == 2:       # many rows at once: the same points over and over
                    n = 3000 if not fam.startswith("empirical") else 400
                    ix = rng.randint(0, len(span), n)
                    s.ev("eval", f"{fam}(dim={d}).{meth}({n} rows)", lambda: fn(span[ix]), form=dict(kind="matrix", order=orders(d)[0]), set="f8", rows=[int(i) + 1 for i in ix], noise=f(noise))
                for f_ in fs:
                    k, o = f_["kind"], f_["order"]
                    name = first_name(fn)
                    if k in ("short", "long", "wide", "narrow", "cube", "wide_table"):
                        if k == "wide_table" and really: continue
                        arg = bad(k, span, d, names)
                        call = (lambda: fn(arg)) if f_["style"] == "positional" else (lambda: fn(**{name: arg}))
                        s.ev("refuse", f"{fam}(dim={d}).{meth}({k}, {f_['style']})", call, form=f_)
                        continue
                    set_ = "ints" if k.startswith("ints") else "f4" if k.startswith("f4") else "f8"
                    if set_ == "ints" and meth == "pdf" and not fam.startswith("marginal"): continue     # corners have no density
                    if fam == "marginal_gumbel" and set_ == "f4": continue
                    arg, rows = form(k, o, sets[set_], names)
                    call = (lambda: fn(arg)) if f_["style"] == "positional" else (lambda: fn(**{name: arg}))
                    s.ev("eval", f"{fam}(dim={d}, names {'known' if known else 'unknown'}).{meth}({k} order {o}, {f_['style']})", call, form=f_, set=set_, rows=rows, noise=f(noise))
            if fam in ("empirical_none", "empirical_checkerboard"): continue
            X = rng.normal(size=(7, d)) * .2 + .5
            liks = []
            s = tr.session(f"{fam} d={d} log_lik known={known}", known=known and fam != "gmc", d=d)
            for o in orders(d):
                v, e = s.run("log_lik", lambda: cop.log_lik(X[:, [k - 1 for k in o]]))
                liks.append(dict(order=o, v=f(np.nan if e is not None else v)))
            for o in orders(d):
                T = pd.DataFrame(X[:, [k - 1 for k in o]], columns=[names[k - 1] for k in o])
                s.ev("lik", f"{fam}(dim={d}, names {'known' if known else 'unknown'}).log_lik(table order {o})", lambda: cop.log_lik(T), form=dict(kind="table", order=o), liks=liks)
            s.ev("lik", f"{fam}(dim={d}).log_lik(list)", lambda: cop.log_lik(X.tolist()), form=dict(kind="nested_many", order=orders(d)[0]), liks=liks)
tr.save()
