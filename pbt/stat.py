"""Distribution-free tests with explicit error bounds for randomized searches."""
import math

import numpy as np
from scipy.stats import norm

from .core import require


def pit(col, center, sigma, lb, ub, isint=False, seed=0):
    """Probability integral transform of samples of a normal around center truncated to [lb, ub] (and rounded)."""
    col = np.asarray(col, dtype=float)
    a, b = norm.cdf((lb - center) / sigma), norm.cdf((ub - center) / sigma)
    if not isint:
        return (norm.cdf((col - center) / sigma) - a) / (b - a)
    lo, hi = math.ceil(lb), math.floor(ub)  # values outside the integer range are moved to its ends
    left = np.where(col <= lo, lb, col - 0.5)
    right = np.where(col >= hi, ub, col + 0.5)
    fl = (norm.cdf((left - center) / sigma) - a) / (b - a)
    fr = (norm.cdf((right - center) / sigma) - a) / (b - a)
    return fl + np.random.RandomState([seed, 987654]).rand(len(col)) * (fr - fl)


def ks_uniform(u, what, alpha=1e-11):
    """Dvoretzky-Kiefer-Wolfowitz: P(D > t) <= 2 exp(-2 n t^2)."""
    n = len(u)
    if n == 0:
        return
    u = np.sort(u)
    i = np.arange(n)
    D = max(np.max(u - i / n), np.max((i + 1) / n - u))
    t = math.sqrt(math.log(2 / alpha) / (2 * n))
    require(D <= t, "%s: KS statistic %.3f exceeds %.3f for %d samples (error probability %.0e)", what, D, t, n, alpha)


def hoeffding(k, n, p, what, alpha=1e-11):
    """k successes in n independent trials with mean success probability p."""
    if n == 0:
        return
    t = math.sqrt(math.log(2 / alpha) / (2 * n))
    require(abs(k / n - p) <= t, "%s: frequency %.3f in %d trials, expected %.3f +- %.3f", what, k / n, n, p, t)
