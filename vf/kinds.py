"""Generators of model cases, and construction of the models under test.

A case is a plain JSON value, so a shrunk failure can be replayed without
Hypothesis.  Potentials are decoded from a byte string: byte 0 is the value 0.0,
so shrinking bytes shrinks potentials.
"""
import numpy as np
import torch
from hypothesis import strategies as st

from . import oracle, refdp
from .sut import sut, ts

KINDS = ["lc", "sm", "dep", "tree", "cfg"]
TENSOR_KINDS = ["lc", "sm", "dep", "tree"]

NEG = -1e9  # how callers write "forbidden" (the repository's own tests do)


# --------------------------------------------------------------------------
# per-kind facts


def event_shape(kind, dims):
    if kind == "lc":
        N, C = dims
        return (N - 1, C, C)
    if kind == "sm":
        N1, K, C = dims
        return (N1, K, C, C)
    if kind == "dep":
        N, L, _ = dims
        return (N, N, L) if L else (N, N)
    if kind == "np":
        N, _ = dims
        return (N, N)
    if kind == "tree":
        N, NT = dims
        return (N, N, NT)
    if kind == "cfg":
        N, NT, T = dims
        return (N * T + NT * (NT + T) ** 2 + NT,)
    raise KeyError(kind)


def esize(kind, dims):
    return int(np.prod(event_shape(kind, dims)))


def full_len(kind, dims):
    return dims[0] + 1 if kind == "sm" else dims[0]


def min_len(kind):
    return 2 if kind == "cfg" else 1


def needs_full(kind):
    "These reject a batch in which no item has the full length."
    return kind in ("lc", "sm")


def support(kind, dims, l):
    if kind == "lc":
        return oracle.lc_support(dims[0], dims[1], l)
    if kind == "sm":
        return oracle.sm_support(dims[0], dims[1], dims[2], l)
    if kind == "dep":
        return oracle.dep_support(dims[0], dims[1], l, bool(dims[2]))
    if kind == "np":
        return oracle.dep_support(dims[0], 0, l, bool(dims[1]), False)
    if kind == "tree":
        return oracle.tree_support(dims[0], dims[1], l)
    if kind == "cfg":
        return oracle.cfg_support(dims[0], dims[1], dims[2], l)[0]
    raise KeyError(kind)


def count(kind, dims, l):
    if kind == "lc":
        return oracle.lc_count(dims[0], dims[1], l)
    if kind == "sm":
        return oracle.sm_count(dims[0], dims[1], dims[2], l)
    if kind == "dep":
        return oracle.dep_count(dims[0], dims[1], l, bool(dims[2]))
    if kind == "np":
        return oracle.dep_count(dims[0], 0, l, bool(dims[1]), False)
    if kind == "tree":
        return oracle.tree_count(dims[0], dims[1], l)
    if kind == "cfg":
        return oracle.cfg_count(dims[0], dims[1], dims[2], l)
    raise KeyError(kind)


def split_cfg(x, dims):
    "Split (..., E) into terms, rules, roots."
    N, NT, T = dims
    S = NT + T
    a, b = N * T, N * T + NT * S * S
    pre = x.shape[:-1]
    return (
        x[..., :a].reshape(*pre, N, T),
        x[..., a:b].reshape(*pre, NT, S, S),
        x[..., b:].reshape(*pre, NT),
    )


def ref(kind, dims, phi, l, A):
    "Reference dynamic program on one item; phi is indexable (array or tensor)."
    if kind == "cfg":
        t, r, o = split_cfg(phi, dims)
        return refdp.cfg(t, r, o, dims[1], dims[2], l, A)
    phi = phi.reshape(event_shape(kind, dims))
    if kind == "lc":
        return refdp.lc(phi, dims[1], l, A)
    if kind == "sm":
        return refdp.sm(phi, dims[1], dims[2], l, A)
    if kind == "dep":
        return refdp.dep(phi, dims[1], l, bool(dims[2]), A)
    if kind == "tree":
        return refdp.tree(phi, dims[1], l, A)
    raise KeyError(kind)


def make(kind, dims, x, lens):
    "Build the distribution under test from potentials x (tensor or tuple)."
    T = ts()
    if kind == "lc":
        return T.LinearChainCRF(x, lengths=lens)
    if kind == "sm":
        return T.SemiMarkovCRF(x, lengths=lens)
    if kind == "dep":
        if dims[2]:
            return T.DependencyCRF(x, lengths=lens)
        return T.DependencyCRF(x, lengths=lens, multiroot=False)
    if kind == "np":
        return T.NonProjectiveDependencyCRF(x, lengths=lens, multiroot=bool(dims[1]))
    if kind == "tree":
        return T.TreeCRF(x, lengths=lens)
    if kind == "cfg":
        return T.SentCFG(x, lengths=lens)
    raise KeyError(kind)


# --------------------------------------------------------------------------
# sizes


def _small_dims(limit):
    d = {k: [] for k in KINDS + ["np"]}
    for N in range(2, 10):
        for C in range(1, 6):
            if oracle.lc_count(N, C, N) <= limit and (N - 1) * C * C <= 130:
                d["lc"].append([N, C])
    for N1 in range(1, 9):
        for K in range(2, 7):
            for C in range(1, 4):
                if (
                    oracle.sm_count(N1, K, C, N1 + 1) <= limit
                    and N1 * K * C * C <= 150
                    and K <= N1 + 3
                ):
                    d["sm"].append([N1, K, C])
    for N in range(1, 6):
        for L in range(0, 4):
            for mr in (1, 0):
                if oracle.dep_count(N, L, N, bool(mr)) <= limit:
                    d["dep"].append([N, L, mr])
    for N in range(1, 7):
        for NT in range(1, 4):
            if oracle.tree_count(N, NT, N) <= limit:
                d["tree"].append([N, NT])
    for N in range(2, 6):
        for NT in range(1, 4):
            for T in range(1, 4):
                if oracle.cfg_count(N, NT, T, N) <= limit:
                    d["cfg"].append([N, NT, T])
    for N in range(1, 6):
        for mr in (0, 1):
            if oracle.dep_count(N, 0, N, bool(mr), False) <= limit:
                d["np"].append([N, mr])
    for k in d:
        d[k].sort(key=lambda v: (esize(k, v), v))
        # keep only a few of the sizes that admit a single structure
        one = [v for v in d[k] if count(k, v, full_len(k, v)) == 1]
        d[k] = [v for v in d[k] if v not in one or v in one[:2] or v == one[-1]]
    return d


SMALL = _small_dims(1100)
TINY = _small_dims(60)

# long inputs, for which the reference programs stand in for enumeration
LARGE = {
    "lc": [[N, C] for N in (5, 8, 9, 10, 12, 16, 17, 18, 21, 32, 33, 34, 40) for C in (1, 2, 3)]
    + [[N, C] for N in (3, 6, 9, 17) for C in (4, 6)],
    "sm": [[N1, K, C] for N1 in (4, 7, 8, 9, 12, 15, 16, 17, 20) for K in (2, 3, 4, 6) for C in (1, 2)]
    + [[N1, K, 3] for N1 in (5, 9, 12) for K in (3, 5)]
    + [[9, 10, 2], [5, 12, 2]],
    "dep": [[N, L, mr] for N in (5, 6, 7, 8, 9, 10, 12) for L in (0, 2) for mr in (1, 0)]
    + [[7, 4, 1], [7, 4, 0]],
    "tree": [[N, NT] for N in (5, 6, 7, 8, 9, 12, 14) for NT in (1, 2, 4)],
    "cfg": [[N, NT, T] for N in (4, 5, 6, 7, 8) for NT, T in ((1, 2), (2, 1), (2, 2), (3, 1))]
    + [[4, 3, 3], [5, 3, 2], [5, 2, 3]],
}
for _k in LARGE:
    LARGE[_k].sort(key=lambda v: (esize(_k, v), v))


# --------------------------------------------------------------------------
# potentials

PROFILES = ["dyadic", "jitter", "ties", "wide", "tiny", "neg", "big", "near"]


def _zig(b):
    b = b.astype(np.int64)
    return np.where(b % 2 == 0, b // 2, -((b + 1) // 2)).astype(np.float64)


def _noise(n):
    "A fixed pseudo-random sequence, so that sums over different positions differ."
    x = np.sin(np.arange(1, n + 1) * 12.9898) * 43758.5453
    return x - np.floor(x)


def decode(vals_hex, n, prof):
    """n potentials.  'dyadic', 'ties' and 'wide' sum exactly in float64;
    'jitter' makes ties between different structures practically impossible."""
    raw = np.frombuffer(bytes.fromhex(vals_hex), dtype=np.uint8)
    assert len(raw) == n, (len(raw), n)
    z = _zig(raw)
    if prof == "dyadic":
        return z / 16.0
    if prof == "jitter":
        return z / 32.0 + _noise(n) * 0.5
    if prof == "ties":
        return np.clip(z, -1, 1)
    if prof == "wide":
        return z / 2.0
    if prof == "tiny":
        return z / 4096.0
    if prof == "micro":
        return z / 65536.0
    if prof == "near":  # near ties
        return z * 1e-6 + 0.5 * (raw % 3 == 1)
    if prof == "neg":
        return -np.abs(z) / 8.0 - 1.0
    if prof == "big":
        return z * 3.0
    if prof == "np":  # moderate: between -3 and 3
        return z * (3.0 / 128.0)
    if prof == "jitterpos":
        return np.abs(z) / 64.0 + _noise(n) * 0.5
    raise KeyError(prof)


LAYOUTS = ["c", "c", "c", "grad", "nonleaf", "rev", "step", "exp"]


def lay_out(x, layout):
    """The same values as x (B, ...) in another memory layout / autograd role."""
    if layout in ("c", "exp"):
        return x.clone()
    if layout == "grad":
        return x.clone().requires_grad_(True)
    if layout == "nonleaf":
        return x.clone().requires_grad_(True) * 1.0
    if layout == "rev":
        p = list(range(x.dim()))[::-1]
        return x.permute(*p).contiguous().permute(*p)
    if layout == "step":
        big = torch.full([2 * s + 1 for s in x.shape], 7.25, dtype=x.dtype)
        view = big[tuple(slice(1, None, 2) for _ in x.shape)]
        view.copy_(x)
        return view
    raise KeyError(layout)


class Built:
    """One decoded case: the distribution, and per item phi (float64) and length."""

    def __init__(self, case, key="vals"):
        kind, dims, B = case["kind"], case["dims"], case["B"]
        self.case, self.kind, self.dims, self.B = case, kind, dims, B
        E = esize(kind, dims)
        self.E = E
        v = decode(case[key], B * E, case["prof"]).reshape(B, E)
        lens = case["lens"]
        self.lens = [full_len(kind, dims)] * B if lens is None else list(lens)
        if case.get("forb"):
            v = self._forbid(v, case["forb"], case["vals"])
        if case.get("layout") == "exp":
            v = np.broadcast_to(v[:1], v.shape).copy()
        dt = {"f32": torch.float32, "bf16": torch.bfloat16}.get(case["dtype"], torch.float64)
        t = torch.tensor(v, dtype=dt)
        self.phi = t.double().numpy().copy()
        self.dtype = dt
        lay = case.get("layout", "c")
        if kind == "cfg":
            parts = split_cfg(t, dims)
            if lay == "exp":
                self.x = tuple(
                    p[:1].clone().expand(*((B,) + tuple(p.shape[1:]))) for p in parts
                )
            else:
                self.x = tuple(lay_out(p, lay) for p in parts)
        else:
            t = t.reshape((B,) + event_shape(kind, dims))
            if lay == "exp":
                self.x = t[:1].clone().expand(*t.shape)
            else:
                self.x = lay_out(t, lay)
        self.lt = None if lens is None else torch.tensor(lens, dtype=torch.int32 if case.get("ltype") == "int" else torch.long)
        self._ex = {}

    def _forbid(self, v, forb, salt):
        """Set a pseudo-random subset of parts to forb['value'], always leaving one
        structure per item fully allowed (forb['keep'][b] picks it)."""
        raw = np.frombuffer(bytes.fromhex(salt), dtype=np.uint8).reshape(v.shape)
        v = v.copy()
        value = -np.inf if forb["value"] == "-inf" else float(forb["value"])
        for b in range(v.shape[0]):
            M = support(self.kind, self.dims, self.lens[b])
            keep = M[forb["keep"][b] % len(M)] > 0
            hit = ((raw[b].astype(np.int64) * 37 + 11 * np.arange(self.E) + 5) % 256) < forb[
                "density"
            ]
            v[b, hit & ~keep] = value
        return v

    def dist(self):
        return sut(make, self.kind, self.dims, self.x, self.lt)

    def exact(self, b):
        if b not in self._ex:
            self._ex[b] = oracle.Exact(
                support(self.kind, self.dims, self.lens[b]), self.phi[b]
            )
        return self._ex[b]

    def tol(self, b, scale=None):
        s = scale if scale is not None else self.exact(b).scale
        if self.dtype == torch.bfloat16:  # eight bits of mantissa, rounded at every step
            return 0.008 * (2 + self.lens[b]) * s
        return (1e-9 if self.dtype == torch.float64 else 2e-6) * 20 * s

    @property
    def f32(self):
        return self.dtype != torch.float64

    def items(self):
        return range(self.B)

    def ref(self, b, A):
        return ref(self.kind, self.dims, self.phi[b], self.lens[b], A)

    def scale_bound(self, b):
        "1 + an upper bound on |score| usable without enumeration."
        n = self.lens[b]
        return 1.0 + 2.0 * n * float(np.max(np.abs(self.phi[b]))) if self.E else 1.0


def flat_event(kind, t):
    "Result with trailing event shape -> (..., E) float64 numpy."
    if kind == "cfg":
        lead = t[2].shape[:-1]
        return np.concatenate(
            [p.detach().double().reshape(*lead, -1).numpy() for p in t[:3]], -1
        )
    return t


def events(kind, dims, t, lead):
    """(lead..., E) float64 array from a library event value with lead dims."""
    if kind == "cfg":
        return np.concatenate(
            [p.detach().double().reshape(*lead, -1).numpy() for p in t[:3]], -1
        )
    return t.detach().double().reshape(*lead, -1).numpy()


# --------------------------------------------------------------------------
# strategies


@st.composite
def model_case(
    draw,
    kinds=tuple(KINDS),
    table="small",
    max_b=3,
    profiles=tuple(PROFILES),
    layouts=("c",),
    dtypes=("f64", "f64", "f64", "f32"),
    lengths=True,
    forb=False,
    two=False,
    min_full=1,
    min_b=1,
):
    kind = draw(st.sampled_from(list(kinds)))
    tab = {"small": SMALL, "tiny": TINY, "large": LARGE}[table][kind]
    tab = [d for d in tab if full_len(kind, d) >= min_full]
    if draw(st.integers(0, 9)) != 9:  # mostly sizes that admit several structures
        tab = [d for d in tab if count(kind, d, full_len(kind, d)) > 1]
    dims = draw(st.sampled_from(tab))
    B = draw(st.integers(min_b, max_b))
    full = full_len(kind, dims)
    lens = None
    if lengths and draw(st.booleans()):
        lo = min(min_len(kind), full)
        lens = [full - draw(st.integers(0, full - lo)) for _ in range(B)]
        if needs_full(kind):
            lens[draw(st.integers(0, B - 1))] = full
    prof = draw(st.sampled_from(list(profiles)))
    E = esize(kind, dims)
    n = B * E
    case = {
        "kind": kind,
        "dims": dims,
        "B": B,
        "lens": lens,
        "prof": prof,
        "dtype": draw(st.sampled_from(list(dtypes))),
        "layout": draw(st.sampled_from(list(layouts))),
    }
    if lens is not None and draw(st.integers(0, 3)) == 3:
        case["ltype"] = "int"
    if case["dtype"] != "f64" and prof in ("big",):
        case["prof"] = "dyadic"
    if forb and case["layout"] != "exp" and draw(st.integers(0, 2)) == 2:
        case["forb"] = {
            "value": draw(st.sampled_from(["-1e9", "-1e4"])) if forb is True else forb,
            "density": draw(st.sampled_from([40, 120, 200, 256])),
            "keep": [draw(st.integers(0, 4000)) for _ in range(B)],
        }
    case["vals"] = draw(st.binary(min_size=n, max_size=n)).hex()
    if two:
        case["vals2"] = draw(st.binary(min_size=n, max_size=n)).hex()
    return case


def labels(case):
    "Classification of a model case, for the evidence."
    out = ["kind:" + case["kind"], "prof:" + case["prof"], case["dtype"]]
    full = full_len(case["kind"], case["dims"])
    if case["lens"] is not None and min(case["lens"]) < full:
        out.append("padded")
    if case.get("ltype"):
        out.append("int32-lengths")
    if case["B"] == 1:
        out.append("batch1")
    if case.get("forb"):
        out.append("forbidden-parts")
    if case.get("layout", "c") != "c":
        out.append("layout:" + case["layout"])
    if case["kind"] == "dep":
        out.append("dep:%s%s" % ("multi" if case["dims"][2] else "single", "+lab" if case["dims"][1] else ""))
    return out
