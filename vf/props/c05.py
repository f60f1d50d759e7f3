"""C05: the k best structures."""
import numpy as np
from hypothesis import strategies as st

from .. import huge, judge, kinds as K, oracle, refdp
from ..runner import Sub
from ..sut import expect, sut

ID = "C05"
RULE = (
    "a case is a model case plus k between 1 and 17 (often more than the number of "
    "structures of a short item); non-trivial when some item has at least two structures, "
    "k is at least 2 and not all potentials are zero"
)
FAR = -3e4  # surplus entries must be at least this far below any real score


def check_values(v, want, b, tol, k):
    m = len(want)
    judge.close_array(v[:m], want, tol, "k-max values of item %d" % b)
    if m < k:
        expect((v[m:] < FAR).all(), "k-max of item %d: surplus value %r passes for a structure", b, float(v[m:].max()))


def enum(case):
    bt = K.Built(case)
    k = case["k"]
    d = bt.dist()
    first = case["first"]
    if first == "topk":
        top = sut(d.topk, k) if bt.kind != "cfg" else None
    v = judge.vector(sut(d.kmax, k), bt, "k-max", (k,))
    if first != "topk":
        top = sut(d.topk, k)
    out = judge.base_labels(case, bt)
    out.append("k:%s" % (k if k < 5 else "5+"))
    if k == 1:
        out.append("trivial:k=1")
    if bt.kind == "cfg":
        grammar(bt, sut(d.topk, k), v, k)
        return out
    rows = judge.event_tensor(top, bt, "top-k", (k,))
    for b in bt.items():
        ex = bt.exact(b)
        m = min(k, len(ex.M))
        tol = 2 * bt.tol(b)
        check_values(v[:, b], ex.kbest(k), b, tol, k)
        used = {}
        for i in range(m):
            idx = judge.legal(rows[i, b], bt, b, "top-k entry %d" % i)
            judge.close(ex.scores[idx[0]], v[i, b], tol, "score of top-k entry %d of item %d" % (i, b))
            used[idx[0]] = used.get(idx[0], 0) + 1
            expect(used[idx[0]] <= len(idx), "top-k of item %d repeats a structure", b)
        if m < k:
            out.append("k>structures")
    return sorted(set(out))


def grammar(bt, top, v, k):
    N, NT, T = bt.dims
    expect(tuple(top[3].shape) == (k, bt.B, N, N, NT), "grammar top-k spans have shape %s", tuple(top[3].shape))
    sp = top[3].detach().double().numpy()
    for b in bt.items():
        ex = bt.exact(b)
        m = min(k, len(ex.M))
        tol = 2 * bt.tol(b)
        check_values(v[:, b], ex.kbest(k), b, tol, k)
        S = oracle.cfg_support(N, NT, T, bt.lens[b])[1]
        used = {}
        for i in range(m):
            idx = oracle.row_index(S, sp[i, b].ravel())
            expect(len(idx), "top-k span chart %d of item %d is not a derivation's", i, b)
            # several derivations (preterminal choices) can share a span chart
            fit = [j for j in idx if abs(ex.scores[j] - v[i, b]) <= tol]
            expect(fit, "top-k span chart %d of item %d has no derivation of score %r", i, b, float(v[i, b]))
            key = idx[0]
            used[key] = used.get(key, 0) + 1
            expect(used[key] <= len(idx), "grammar top-k of item %d repeats a derivation", b)


def large(case):
    bt = K.Built(case)
    k = case["k"]
    v = judge.vector(sut(bt.dist().kmax, k), bt, "k-max", (k,))
    for b in bt.items():
        want = np.array(bt.ref(b, refdp.KBest(k)))
        check_values(v[:, b], want, b, bt.tol(b, bt.scale_bound(b)), k)
    return judge.base_labels(case, bt)


@st.composite
def kcase(draw, **kw):
    c = draw(K.model_case(**kw))
    c["k"] = draw(st.sampled_from([2, 3, 1, 2, 3, 4, 5, 6, 7, 9, 12, 17]))
    c["first"] = draw(st.sampled_from(["kmax", "topk"]))
    return c


def big(case):
    "Sizes far beyond enumeration: values by the reference program, structures by direct reading."
    h = huge.Huge(case)
    k = case["k"]
    d = h.dist()
    v = judge.vector(sut(d.kmax, k), h, "k-max", (k,))
    for b in h.judged()[:3]:
        want = np.array(K.ref(h.kind, h.dims, h.phi[b], h.lens[b], refdp.KBest(k)))
        check_values(v[:, b], want, b, h.tol(b), k)
    if h.kind != "cfg":
        rows = judge.event_tensor(sut(d.topk, k), h, "top-k", (k,))
        for b in h.judged()[:3]:
            m = min(k, int(min(K.count(h.kind, h.dims, h.lens[b]), 10 ** 6)))
            if h.kind in ("lc", "sm") and h.lens[b] == 1:
                continue  # all structures of such an item have the same (empty) event
            seen = set()
            for i in range(m):
                huge.member(h, b, rows[i, b], "top-k entry %d" % i)
                judge.close(float(rows[i, b] @ h.phi[b]), v[i, b], 2 * h.tol(b), "score of top-k entry %d of item %d" % (i, b))
                seen.add(rows[i, b].tobytes())
                expect(len(seen) == i + 1, "top-k of item %d repeats a structure", b)
    return h.labels() + ["k:%s" % ("<10" if k < 10 else "10+")]


@st.composite
def big_case(draw):
    c = draw(huge.huge_case(scales=("soft", "mid", "sharp", "steep"), styles=huge.PLAIN, max_e=1300))
    c["k"] = draw(st.sampled_from([2, 3, 5, 9, 16, 17, 20, 33, 40]))
    if c["kind"] in ("cfg", "sm", "dep"):
        c["k"] = min(c["k"], 9)
    return c


def subs(tier):
    prof = ("jitter", "ties", "dyadic", "wide", "neg", "jitter", "near")
    return [
        Sub("enum", kcase(layouts=("c", "c", "grad", "rev"), profiles=prof), enum, 2000, 30000),
        Sub("huge", big_case(), big, 30, 500),
        Sub("long", kcase(table="large", max_b=2, profiles=("jitter", "dyadic", "near")), large, 240, 4000),
    ]
