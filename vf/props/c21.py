"""C21: conversions between representations of constituency trees."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C21"
QUICK = 2.5
RULE = (
    "a case is a batch of random labelled binary trees of possibly different lengths, or a "
    "grammar whose best parse is converted; non-trivial when some tree has at least three leaves"
)


class Tree:
    """Built from a split stream: spans (i, j) -> (label, k, left label, right label)."""

    def __init__(self, length, NT, T, stream):
        self.n = length
        it = iter(stream)
        self.nodes = {}  # (i, j) -> label in [0, NT+T)
        self.rules = []  # (i, k, j, A, B, C)

        def build(i, j):
            if i == j:
                self.nodes[i, j] = NT + next(it) % T
                return
            self.nodes[i, j] = next(it) % NT
            k = i + next(it) % (j - i)
            build(i, k)
            build(k + 1, j)
            self.rules.append((i, k, j, self.nodes[i, j], self.nodes[i, k], self.nodes[k + 1, j]))

        build(0, length - 1)
        self.children = {(i, j): ((i, k), (k + 1, j)) for i, k, j, *_ in self.rules}

    def nested(self, s=None):
        s = s or (0, self.n - 1)
        if s not in self.children:
            return (self.nodes[s],)
        l, r = self.children[s]
        return (self.nodes[s], self.nested(l), self.nested(r))


def build(case):
    N, NT, T, lens = case["N"], case["NT"], case["T"], case["lens"]
    raw = bytes.fromhex(case["stream"])
    per = len(raw) // len(lens)
    trees = [Tree(l, NT, T, raw[b * per:(b + 1) * per]) for b, l in enumerate(lens)]
    S = NT + T
    spans = np.zeros((len(lens), N, N, S))
    terms = np.zeros((len(lens), N, T))
    rules = np.zeros((len(lens), NT, S, S))
    roots = np.zeros((len(lens), NT))
    chart = np.zeros((len(lens), N, N, NT, S, S))
    for b, t in enumerate(trees):
        for (i, j), a in t.nodes.items():
            spans[b, i, j, a] = 1
            if i == j:
                terms[b, i, a - NT] = 1
        for i, k, j, A, B, C in t.rules:
            rules[b, A, B, C] += 1
            chart[b, j - i - 1, i, A, B, C] = 1
        roots[b, t.nodes[0, t.n - 1]] = 1
    return trees, spans, terms, rules, roots, chart


def check(case):
    trees, spans, terms, rules, roots, chart = build(case)
    N, NT, T, lens = case["N"], case["NT"], case["T"], case["lens"]
    CKY = ts().CKY
    dt = {"f32": torch.float32, "f64": torch.float64, "i64": torch.long}[case["dtype"]]
    x = torch.tensor(spans, dtype=dt)
    if case["layout"] == "rev":
        x = K.lay_out(x, "rev")
    keep = x.clone()
    full = all(l == N for l in lens)
    lt = torch.tensor(lens)
    lt = lt.tolist() if case["lform"] == "list" else None if case["lform"] == "none" and full else lt
    if case["via"] == "dist":
        d = ts().SentCFG((torch.zeros(1, N, T), torch.zeros(1, NT, NT + T, NT + T), torch.zeros(1, NT)))
        got = sut(d.to_event, x, (NT, T), lt)
    else:
        got = sut(CKY.to_parts, x, (NT, T), lt) if case["via"] == "pos" else sut(CKY.to_parts, x, (NT, T), lengths=lt)
    for name, g, w in zip(("terminals", "rule uses", "roots"), got, (terms, rules, roots)):
        expect(tuple(g.shape) == w.shape, "%s have shape %s, expected %s", name, tuple(g.shape), w.shape)
        judge.close_array(g.double().numpy(), w, 0.0, "%s of the converted trees" % name)
    # per-width chart -> spans
    c = (torch.tensor(terms), torch.tensor(chart), torch.tensor(roots))
    s, extra = sut(CKY.from_parts, c)
    expect(tuple(extra) == (NT, T), "label counts %s, expected %s", tuple(extra), (NT, T))
    judge.close_array(s.double().numpy(), spans, 0.0, "spans of the per-width chart")
    # split points
    if hasattr(CKY, "_intermediary"):
        sp = sut(CKY._intermediary, x)
        want = {(b, i, j): (k, B, C) for b, t in enumerate(trees) for i, k, j, _, B, C in t.rules}
        sp = {tuple(int(v) for v in k): tuple(int(v) for v in val) for k, val in sp.items()}
        expect(sp == want, "splits differ at %s", sorted(set(sp.items()) ^ set(want.items()))[:4])
    graph(x, trees)
    expect(torch.equal(x, keep), "a conversion changed the chart passed in")
    out = ["leaves:%d" % max(lens), case["dtype"], "via:" + case["via"]]
    if not full:
        out.append("padded")
    if len(lens) > 1:
        out.append("batch")
    if max(lens) < 3:
        out.append("trivial:two-leaves")
    return out


def graph(x, trees):
    (n, a, b, label), indices, topo = sut(ts().CKY.to_networkx, x)
    total = sum(len(t.nodes) for t in trees)
    expect(n == total, "graph of %d nodes for %d constituents", n, total)
    expect(len(label) == total, "%d labels for %d constituents", len(label), total)
    a, b = [int(v) for v in a], [int(v) for v in b]
    label = [int(v) for v in label]
    expect(len(a) == len(b), "edge lists of different lengths")
    kids = {}
    for child, parent in zip(a, b):
        expect(0 <= child < n and 0 <= parent < n, "edge to a node that does not exist")
        kids.setdefault(parent, []).append(child)
    expect(all(len(v) == 2 for v in kids.values()), "a node has other than two children")
    expect(len(set(a)) == len(a), "a node has two parents")
    level = {}
    for l, nodes in enumerate(topo):
        for v in nodes:
            expect(int(v) not in level, "node %d appears twice in the order", int(v))
            level[int(v)] = l
    expect(sorted(level) == list(range(n)), "the order lists %d of %d nodes", len(level), n)
    for p, cs in kids.items():
        expect(all(level[c] < level[p] for c in cs), "a parent is ordered before its child")

    def nested(v):
        if v not in kids:
            return (label[v],)
        return (label[v],) + tuple(nested(c) for c in kids[v])

    for i, t in enumerate(trees):
        root = int(indices[(i, 0)][0])
        expect(root not in a, "root of item %d has a parent", i)
        expect(nested(root) == t.nested(), "graph of item %d is the tree %s, expected %s", i, nested(root), t.nested())


def parse(case):
    "The best parse of a grammar, as spans, converts back to the parts of the best parse."
    bt = K.Built(case)
    N, NT, T = bt.dims
    d = bt.dist()
    terms, rules, roots, sp = [p.detach() for p in sut(lambda: d.argmax)]
    spans = torch.zeros(bt.B, N, N, NT + T, dtype=bt.dtype)
    for w in range(N - 1):
        for i in range(N - 1 - w):
            spans[:, i, i + w + 1, :NT] = sp[:, w, i]
    ar = torch.arange(N)
    spans[:, ar, ar, NT:] = terms
    lt = torch.tensor(bt.lens)
    got = sut(d.to_event, spans, (NT, T), lt)
    for name, g, w in zip(("terminals", "rule uses", "roots"), got, (terms, rules, roots)):
        judge.close_array(g.double().numpy(), w.double().numpy(), 1e-6, "%s of the best parse" % name)
    out = judge.base_labels(case, bt)
    if max(bt.lens) < 3:
        out.append("trivial:two-leaves")
    return out


@st.composite
def tree_case(draw):
    N = draw(st.integers(2, 12))
    B = draw(st.integers(1, 3))
    NT, T = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    lens = [N - draw(st.integers(0, N - 2)) if draw(st.booleans()) else N for _ in range(B)]
    k = B * 3 * N
    return {
        "N": N, "NT": NT, "T": T, "lens": lens,
        "dtype": draw(st.sampled_from(["f32", "f64", "i64"])),
        "layout": draw(st.sampled_from(["c", "rev"])),
        "lform": draw(st.sampled_from(["tensor", "list", "none"])),
        "via": draw(st.sampled_from(["kw", "pos", "dist"])),
        "stream": draw(st.binary(min_size=k, max_size=k)).hex(),
    }


@st.composite
def tall_case(draw):
    "Long sentences, many labels, larger batches."
    c = draw(tree_case())
    N, NT, T = draw(st.sampled_from([(13, 3, 2), (14, 2, 5), (16, 2, 2), (17, 1, 1), (20, 2, 3), (31, 2, 1), (33, 1, 2), (40, 1, 1), (60, 1, 1),
                                     (8, 9, 4), (6, 5, 12), (4, 12, 3), (3, 2, 30), (10, 6, 6)]))
    B = draw(st.sampled_from([1, 2, 3, 9]))
    if N > 20:
        B = min(B, 2)
    lens = [N - draw(st.integers(0, N - 2)) if draw(st.booleans()) else N for _ in range(B)]
    shape = draw(st.sampled_from(["any", "left", "right"]))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    raw = rng.randint(0, 256, B * 3 * N)
    if shape == "right":
        raw[:] = 0
    elif shape == "left":
        raw[:] = 251
    c.update(N=N, NT=NT, T=T, lens=lens, stream=bytes(raw.astype(np.uint8).tolist()).hex())
    return c


def subs(tier):
    return [
        Sub("tree", tree_case(), check, 3000, 40000),
        Sub("tall", tall_case(), check, 120, 2000),
        Sub("parse", K.model_case(kinds=("cfg",), table="small", profiles=("jitter",), dtypes=("f64",)), parse, 1000, 10000),
    ]
