"""Checks the oracles against each other; needs nothing from the code under test.

Enumerated supports and the reference dynamic programs were written separately
(enumeration lists structures from their definition, the programs recurse over
positions).  They must agree on every size the checks enumerate.
"""
import numpy as np

from . import kinds as K
from . import huge, oracle, refdp, refvec, stat


def main():
    rng = np.random.RandomState(0)
    n = 0
    for kind in K.KINDS:
        for d in K.SMALL[kind]:
            for l in range(K.min_len(kind), K.full_len(kind, d) + 1):
                phi = rng.randn(K.esize(kind, d))
                M = K.support(kind, d, l)
                ex = oracle.Exact(M, phi)
                assert len(M) == K.count(kind, d, l), (kind, d, l)
                assert abs(K.ref(kind, d, phi, l, refdp.LogF) - ex.logZ) < 1e-9, (kind, d, l)
                assert abs(K.ref(kind, d, phi, l, refdp.MaxF) - ex.max) < 1e-9, (kind, d, l)
                assert K.ref(kind, d, phi, l, refdp.CountI) == len(M), (kind, d, l)
                k = min(5, len(M))
                assert np.allclose(K.ref(kind, d, phi, l, refdp.KBest(5))[:k], ex.kbest(k)), (kind, d, l)
                it = refvec.Item(kind, d, K.event_shape(kind, d), phi, l, K.split_cfg)
                assert abs(it.logZ - ex.logZ) < 1e-9 and abs(it.max - ex.max) < 1e-9, (kind, d, l)
                assert abs(it.entropy - ex.entropy) < 1e-8, (kind, d, l)
                assert np.allclose(it.marg, ex.marg, atol=1e-9), (kind, d, l)
                e = huge.structure(kind, d, l, rng)[0].reshape(-1)
                assert len(oracle.row_index(M, e)), (kind, d, l)
                if kind != "cfg":
                    rows = {r.tobytes() for r in M}
                    assert all(huge.why_illegal(kind, d, l, r) is None for r in M[:60]), (kind, d, l)
                    for _ in range(8):  # one part moved, added or removed
                        x = M[rng.randint(len(M))].copy()
                        x[rng.randint(len(x))] = rng.randint(2)
                        x[rng.randint(len(x))] = rng.randint(2)
                        assert (huge.why_illegal(kind, d, l, x) is None) == (x.tobytes() in rows), (kind, d, l)
                n += 1
    # known counts: Catalan numbers, Cayley's formula, projective trees
    cat = [1, 1, 2, 5, 14, 42]
    for l in range(1, 7):
        assert K.count("tree", [l, 1], l) == cat[l - 1]
    for l in range(1, 5):
        assert len(oracle.dep_support(l, 0, l, True, False)) == (l + 1) ** (l - 1)
        assert len(oracle.dep_support(l, 0, l, False, False)) == l ** (l - 1)
    assert stat.implausible(90, 100, 0.5) and not stat.implausible(55, 100, 0.5)
    print("selftest ok: %d sizes" % n)
    return 0
