"""C26: data sets."""
from hx import *
import csv, pathlib
import copulae, copulae.datasets as DS

a = parse(); rng = a.rng; tr = Trace(a.out)
DATA = pathlib.Path(copulae.__file__).parent / "datasets" / "data"
FILES = dict(danube="danube.csv", marginal="marginal-data.csv", residuals="residuals.csv", smi="smi.csv")
LOAD = dict(danube=lambda: DS.load_danube(), marginal=lambda: DS.load_marginal_data(), residuals=lambda: DS.load_residuals(), smi=lambda: DS.load_smi())
RETURNS = [lambda: DS.load_smi(True), lambda: DS.load_smi(as_returns=True)]
SMI = [LOAD["smi"], lambda: DS.load_smi(False), lambda: DS.load_smi(as_returns=False)]

def shipped(name):
    rows = [[c.strip() for c in r] for r in csv.reader(open(DATA / FILES[name])) if any(c.strip() for c in r)]
    cols, rows = rows[0], rows[1:]
    dates = []
    if cols[0] == "DATE": cols, dates, rows = cols[1:], [r[0] for r in rows], [r[1:] for r in rows]
    return dict(set=name, cols=cols, dates=dates, rows=mat(np.array(rows, float)))
SHIPPED = {k: shipped(k) for k in FILES}

def cells(T, at): return mat(T.to_numpy(dtype=float)[[i - 1 for i in at]])
def spoil(T, how):
    if how == 0: T.iloc[:, :] = 0.
    elif how == 1: T.columns = [f"c{i}" for i in range(T.shape[1])]
    elif how == 2: T.drop(T.index[: len(T) // 2], inplace=True)
    elif how == 3: T.insert(0, "new", 1.)
    elif how == 4: T.to_numpy()[...] = -1.
    elif how == 5: T.sort_values(T.columns[0], ascending=False, inplace=True)
    else: T.values.flat[::3] = np.nan

def play(hist, k, n_at):
    sets = sorted({("smi" if h["set"] == "returns" else h["set"]) for h in hist})
    s = tr.session(f"history {k}", files=[SHIPPED[x] for x in sets])
    T, keep = [], []
    for i, h in enumerate(hist):
        if h["op"] == "load":
            fn = RETURNS[(k + i) % 2] if h["set"] == "returns" else SMI[(k + i) % 3] if h["set"] == "smi" else LOAD[h["set"]]
            t, e = s.run(f"load {h['set']}", fn)
            bad = "" if isinstance(t, pd.DataFrame) else repr(e or type(t))[:100]
            at, cols, idx, rows, n = [], [], [], [], 0
            if not bad:
                try:
                    n = len(t); at = sorted({1, n, *(int(x) + 1 for x in rng.randint(n, size=n_at))}) if n else []
                    cols = [str(c) for c in t.columns]; rows = cells(t, at); idx = [str(t.index[j - 1])[:10] for j in at]
                except Exception as x:
                    bad = repr(x)[:100]
            s.note("table", f"load {h['set']} after {[(q['op'], q['set']) for q in hist[:i]]}", set=h["set"], bad=bad, cols=cols, n=n, at=at, rows=rows, index=idx, seen=i, fresh=not any(t is q for q in T))
            T.append(t); keep.append(t.copy(deep=True) if not bad else None)
        elif isinstance(T[h["at"] - 1], pd.DataFrame):
            j = h["at"] - 1; how = (k + i) % 7
            _, e = s.run("spoil", lambda: spoil(T[j], how))
            keep[j] = None
            s.note("spoil", f"caller changes the table ({how})", set=h["set"])
            same = all(c is None or (list(c.columns) == list(t.columns) and c.equals(t)) for c, t in zip(keep, T))
            s.note("others", f"a table changes another ({h['set']})", same=bool(same))
hists = a.gen_data
if a.thorough: hists = [hists[i] for i in rng.permutation(len(hists))[:600]]
for k, h in enumerate(hists): play(h, k, 12)
for k, x in enumerate([*FILES, "returns"]): play([dict(op="load", set=x, at=0)], 900 + k, 4000)
tr.save()
