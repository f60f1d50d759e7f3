"""C10: compact <-> event conversions."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K, oracle
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C10"
QUICK = 2.5
RULE = (
    "a case is a batch of structures given in compact form, with padding positions filled "
    "arbitrarily, for one model kind; non-trivial when an item has at least two positions"
)


def lc_event(seq, N, C, l):
    e = np.zeros((N - 1, C, C))
    for n in range(l - 1):
        e[n, seq[n + 1], seq[n]] = 1
    return e


def sm_event(seq, N1, Kw, C, l):
    e = np.zeros((N1, Kw, C, C))
    last = 0
    for n in range(1, l):
        if seq[n] != -1:
            e[last, n - last, seq[n], seq[last]] = 1
            last = n
    return e


def dep_event(heads, N, l):
    e = np.zeros((N, N))
    for i in range(l):
        h = heads[i]
        e[i if h == 0 else h - 1, i] = 1
    return e


def converters(kind, dims, B, lens):
    "(to_event, from_event) as methods of a distribution of that kind, and extra."
    x = torch.zeros((B,) + K.event_shape(kind, dims))
    d = sut(K.make, kind, dims, x, None)
    return d


def check(case):
    kind, dims, B = case["kind"], case["dims"], case["B"]
    lens = case["lens"]
    full = K.full_len(kind, dims)
    use = lens if lens is not None else [full] * B
    seqs = case["seqs"]
    want = []
    for b in range(B):
        if kind == "lc":
            want.append(lc_event(seqs[b], dims[0], dims[1], use[b]))
        elif kind == "sm":
            want.append(sm_event(seqs[b], dims[0], dims[1], dims[2], use[b]))
        else:
            want.append(dep_event(seqs[b], dims[0], use[b]))
    want = np.stack(want)
    extra = {"lc": lambda: dims[1], "sm": lambda: (dims[2], dims[1])}.get(kind, lambda: None)()
    d = converters(kind, dims, B, lens)
    seq = torch.tensor(seqs, dtype=torch.long)
    keep = seq.clone()
    lt = None if lens is None else torch.tensor(lens)
    e = sut(d.to_event, seq, extra, lengths=lt) if lens is not None else sut(d.to_event, seq, extra)
    expect(tuple(e.shape) == want.shape, "event has shape %s, expected %s", tuple(e.shape), want.shape)
    expect(torch.equal(seq, keep), "conversion changed its input")
    judge.close_array(e.double().numpy(), want, 0, "event")
    forms = [torch.tensor(want).to(dt) for dt in (torch.int32, torch.int8, torch.float32, torch.float64, torch.long)]
    forms.insert(0, K.lay_out(forms[-1], "rev"))
    for form in forms:
        back = sut(d.from_event, form)
        s, ex = back
        if kind == "lc":
            expect(int(ex) == dims[1], "from_event reports %s classes", ex)
        if kind == "sm":
            expect(tuple(ex) == (dims[2], dims[1]), "from_event reports sizes %s", ex)
        expect(tuple(s.shape) == (B, full), "compact form has shape %s", tuple(s.shape))
        for b in range(B):
            l = use[b]
            if kind == "lc" and l == 1:
                continue
            if kind == "sm" and l == 1:
                continue
            expect(
                s[b, :l].tolist() == list(seqs[b][:l]),
                "compact form of item %d is %s, expected %s", b, s[b, :l].tolist(), seqs[b][:l],
            )
            if kind == "sm":
                expect((s[b, l:] == -1).all().item(), "segment starts reported in the padding of item %d", b)
    # events in, compact out, events back (a single position leaves no trace in the event)
    s = s.clone()
    for b in range(B):
        if use[b] == 1 and kind == "sm":
            s[b, 0] = seqs[b][0]
    again = sut(d.to_event, s, extra, lengths=torch.tensor(use))
    judge.close_array(again.double().numpy(), want, 0, "event after a round trip")
    out = ["kind:" + kind]
    if lens is not None and min(lens) < full:
        out.append("padded")
    if max(use) < 2:
        out.append("trivial:one-position")
    return out


def decoded(case):
    "Model output -> compact -> event reproduces it; TreeCRF charts pass through."
    bt = K.Built(case)
    d = bt.dist()
    t = sut(lambda: d.argmax) if case["which"] == "argmax" else sut(d.sample, (1,))[0]
    extra = {"lc": lambda: bt.dims[1], "sm": lambda: (bt.dims[2], bt.dims[1])}.get(bt.kind, lambda: None)()
    s, ex = sut(d.from_event, t)
    s = s.clone()
    if bt.kind == "sm":
        s[torch.tensor(bt.lens) == 1, 0] = 0
    back = sut(d.to_event, s, extra, lengths=torch.tensor(bt.lens))
    judge.close_array(
        back.detach().double().reshape(bt.B, -1).numpy(),
        t.detach().double().reshape(bt.B, -1).numpy(), 0, "round trip of a decoded structure")
    return judge.base_labels(case, bt) + [case["which"]]


@st.composite
def compact(draw):
    kind = draw(st.sampled_from(["lc", "sm", "dep", "np"]))
    if kind == "lc":
        dims = [draw(st.integers(2, 9)), draw(st.integers(1, 5))]
    elif kind == "sm":
        dims = [draw(st.integers(1, 9)), draw(st.integers(2, 6)), draw(st.integers(1, 4))]
    elif kind == "dep":
        dims = [draw(st.integers(1, 7)), 0, draw(st.integers(0, 1))]
    else:
        dims = [draw(st.integers(1, 7)), draw(st.integers(0, 1))]
    B = draw(st.integers(1, 4))
    full = K.full_len(kind, dims)
    lens = None
    if draw(st.booleans()):
        lens = [full - draw(st.integers(0, full - 1)) for _ in range(B)]
    seqs = []
    for b in range(B):
        l = full if lens is None else lens[b]
        if kind == "lc":
            s = [draw(st.integers(0, dims[1] - 1)) for _ in range(full)]
        elif kind == "sm":
            s = [draw(st.integers(0, dims[2] - 1))]
            while len(s) < l:
                w = min(draw(st.integers(1, dims[1] - 1)), l - len(s))
                s += [-1] * (w - 1) + [draw(st.integers(0, dims[2] - 1))]
            s += [draw(st.integers(-1, dims[2] - 1)) for _ in range(full - l)]
        else:
            # any head assignment that is a tree: attach words in a random order
            order = draw(st.permutations(list(range(l))))
            s = [0] * l
            for i, w in enumerate(order):
                j = draw(st.integers(0, i))
                s[w] = 0 if j == 0 else order[j - 1] + 1
            s += [draw(st.integers(0, full)) for _ in range(full - l)]
        seqs.append(s)
    return {"kind": kind, "dims": dims, "B": B, "lens": lens, "seqs": seqs}


BIG = {
    "lc": [[3, 40], [2, 130], [3, 140], [2, 200], [2, 260], [3, 300], [66, 4], [130, 3], [140, 2], [260, 2], [300, 2]],
    "sm": [[6, 3, 20], [3, 2, 130], [2, 3, 140], [2, 2, 260], [20, 18, 2], [40, 33, 1], [66, 3, 2], [130, 4, 2], [140, 130, 1], [260, 3, 1]],
    "dep": [[20, 0, 1], [66, 0, 0], [130, 0, 1], [140, 0, 0], [260, 0, 1]],
    "np": [[20, 1], [130, 0], [140, 1], [260, 0]],
}


def big(case):
    "As check, at sizes where small integer types or quadratic shortcuts would show."
    kind, dims, B = case["kind"], case["dims"], case["B"]
    rng = np.random.RandomState(case["sseed"])
    full = K.full_len(kind, dims)
    seqs = []
    for b in range(B):
        l = full if case["lens"] is None else case["lens"][b]
        if kind == "lc":
            s = [int(x) for x in dims[1] - 1 - rng.randint(0, dims[1], full)]
        elif kind == "sm":
            top = lambda: dims[2] - 1 - int(rng.randint(dims[2]))  # noqa: E731
            s = [top()]
            while len(s) < l:
                w = min(int(rng.randint(1, dims[1])), l - len(s))
                s += [-1] * (w - 1) + [top()]
            s += [int(rng.randint(-1, dims[2])) for _ in range(full - l)]
        else:
            order = rng.permutation(l)
            s = [0] * l
            for i, w in enumerate(order):
                j = int(rng.randint(0, i + 1))
                s[int(w)] = 0 if j == 0 else int(order[j - 1]) + 1
            s += [int(rng.randint(0, full + 1)) for _ in range(full - l)]
        seqs.append(s)
    return check(dict(case, seqs=seqs))


@st.composite
def big_case(draw):
    kind = draw(st.sampled_from(sorted(BIG)))
    dims = draw(st.sampled_from(BIG[kind]))
    B = draw(st.integers(1, 2))
    full = K.full_len(kind, dims)
    lens = None
    if draw(st.booleans()):
        lens = [full - draw(st.integers(0, full - 1)) for _ in range(B)]
    return {"kind": kind, "dims": dims, "B": B, "lens": lens, "sseed": draw(st.integers(0, 10 ** 6))}


@st.composite
def dec_case(draw):
    kinds = ["lc", "sm", "dep", "tree"]
    c = draw(K.model_case(kinds=kinds, profiles=("jitter", "ties")).filter(lambda c: c["kind"] != "dep" or c["dims"][1] == 0))
    c["which"] = draw(st.sampled_from(["argmax", "sample"]))
    return c


def subs(tier):
    return [
        Sub("compact", compact(), check, 3000, 40000),
        Sub("big", big_case(), big, 60, 1000),
        Sub("decoded", dec_case(), decoded, 800, 12000),
    ]
