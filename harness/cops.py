"""Construction of copulas from (family, dimension, parameter vector)."""
import numpy as np
from copulae import ClaytonCopula, FrankCopula, GumbelCopula, GaussianCopula, StudentCopula, IndepCopula

CLS = dict(clayton=ClaytonCopula, frank=FrankCopula, gumbel=GumbelCopula, gaussian=GaussianCopula, student=StudentCopula, indep=IndepCopula)
ARCH = ("clayton", "frank", "gumbel")

def assign(cop, fam, par):
    if fam in ARCH: cop.params = par[0]
    elif fam == "gaussian": cop.params = np.array(par, float)
    elif fam == "student": cop.params = np.array(par, float)
    return None

def make(fam, d, par=None):
    cop = CLS[fam](dim=d)
    if par is not None and fam != "indep": assign(cop, fam, par)
    return cop

def rand_corr(rng, d, spread=1.0):
    """random positive definite correlation vector (lower triangle, column order)"""
    while True:
        a = rng.normal(size=(d, d + 1)) + spread * rng.normal(size=(d, 1))
        s = a @ a.T
        s /= np.sqrt(np.outer(np.diag(s), np.diag(s)))
        if np.linalg.eigvalsh(s).min() > 0.02:
            return [float(s[j, i]) for i in range(d) for j in range(i + 1, d)]

def rand_par(rng, fam, d, strong=False, weak=False):
    if weak and fam in ("clayton", "frank", "gumbel"):        # next to independence
        t = float(10 ** rng.uniform(-12, -2))
        return [1 + t] if fam == "gumbel" else [-t if d == 2 and rng.rand() < .5 else t]
    if strong and fam in ("clayton", "frank", "gumbel"):      # dependence near its upper bound
        t = float(10 ** rng.uniform(1.3, 2.4))
        return [-min(t, 150.) if fam == "frank" and d == 2 and rng.rand() < .4 else t]
    if fam == "clayton":
        if d == 2 and rng.rand() < .3: return [float(-rng.rand() * .95)]
        return [float(10 ** rng.uniform(-2, 1.3))]
    if fam == "frank":
        t = float(10 ** rng.uniform(-2, 1.4))
        return [-t if d == 2 and rng.rand() < .4 else t]
    if fam == "gumbel": return [float(1 + 10 ** rng.uniform(-2, 1.1))]
    if fam == "gaussian": return rand_corr(rng, d)
    if fam == "student" and weak: return [float(rng.choice([.4, .7, 1., 1.5, 80., 400., 3000., 8000.]))] + rand_corr(rng, d)
    if fam == "student": return [float(rng.uniform(2, 40))] + rand_corr(rng, d)
    return []
