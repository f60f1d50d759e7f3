"""Exact binomial tail tests, so that a statistical alarm on a correct library is
as unlikely as stated and does not rest on asymptotics."""
import math

ALPHA = 1e-10  # per test


def _logpmf(k, n, p):
    return (
        math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)
        + k * math.log(p) + (n - k) * math.log1p(-p)
    )


def binom_tail(k, n, p):
    "min of the two tails P(X >= k), P(X <= k)."
    if p <= 0.0:
        return 1.0 if k == 0 else 0.0
    if p >= 1.0:
        return 1.0 if k == n else 0.0
    up = k >= n * p
    rng = range(k, n + 1) if up else range(k, -1, -1)
    t = 0.0
    for j in rng:
        e = math.exp(_logpmf(j, n, p))
        t += e
        if e < t * 1e-12:
            break
    return t


def implausible(k, n, p, slack=1e-5):
    """True when k successes in n trials contradict success probability p, allowing
    p to be off by slack (rounding of the model's own probabilities)."""
    lo, hi = max(0.0, p - slack), min(1.0, p + slack)
    f = k / n if n else 0.0
    q = lo if f < lo else hi if f > hi else None
    if q is None:
        return False
    return binom_tail(k, n, q) < ALPHA
