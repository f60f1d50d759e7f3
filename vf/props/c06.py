"""C06: entropy, cross-entropy and KL divergence."""
from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut

ID = "C06"
QUICK = 1.5
RULE = (
    "a case is a model case with two independent sets of potentials; non-trivial when some "
    "item has at least two structures and not all potentials are zero"
)
KINDS2 = ["lc", "sm", "dep", "tree"]  # cross-entropy and KL need tensor potentials


def tolerance(bt, b, ex, ey=None):
    s = ex.scale + (ey.scale if ey else 0)
    return (1e-8 if not bt.f32 else 3e-5) * 10 * s


def single(case):
    bt = K.Built(case)
    h = judge.vector(sut(lambda: bt.dist().entropy), bt, "entropy")
    for b in bt.items():
        ex = bt.exact(b)
        judge.close(h[b], ex.entropy, tolerance(bt, b, ex), "entropy of item %d (length %d)" % (b, bt.lens[b]))
    return judge.base_labels(case, bt)


def pair(case):
    bp = K.Built(case)
    q = dict(case)
    q["vals"] = case["vals2"]
    bq = K.Built(q)
    p, q = bp.dist(), bq.dist()
    ce = judge.vector(sut(p.cross_entropy, q), bp, "cross-entropy")
    kl = judge.vector(sut(p.kl, q), bp, "KL")
    self_kl = judge.vector(sut(p.kl, p), bp, "KL with itself")
    h = judge.vector(sut(lambda: p.entropy), bp, "entropy")
    for b in bp.items():
        ex, ey = bp.exact(b), bq.exact(b)
        t = tolerance(bp, b, ex, ey)
        w = "of item %d (length %d)" % (b, bp.lens[b])
        judge.close(ce[b], ex.cross_entropy(ey), t, "cross-entropy " + w)
        judge.close(kl[b], ex.kl(ey), t, "KL " + w)
        judge.close(self_kl[b], 0.0, t, "KL with itself " + w)
        judge.close(ce[b], h[b] + kl[b], 3 * t, "cross-entropy minus entropy plus KL " + w)
        expect(kl[b] > -t, "KL %s is negative: %r", w, float(kl[b]))
    return judge.base_labels(case, bp)


def subs(tier):
    prof = ("dyadic", "jitter", "ties", "tiny", "neg", "wide")
    return [
        Sub("entropy", K.model_case(profiles=prof, layouts=("c", "c", "grad", "rev")), single, 2500, 40000),
        Sub("pair", K.model_case(kinds=KINDS2, profiles=prof, two=True), pair, 1500, 24000),
        Sub("huge", huge.huge_case(styles=huge.PLAIN, two=True), huge.entropies, 120, 900),
    ]
