"""C24: equivalent models give equal answers (metamorphic, also at sizes beyond any reference)."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import kinds as K
from ..judge import close, close_array
from ..runner import Sub
from ..sut import expect, sut

ID = "C24"
QUICK = 2
RULE = (
    "a case is a model of any kind (chains to 130 positions, segmental models to 200, trees to "
    "24 words) and a transformation that maps it to an equivalent model; non-trivial when the "
    "model has at least two structures for some item"
)
LOG2 = float(np.log(2.0))
BIG = {
    "lc": [[N, C] for N in (2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 66, 100, 129, 130) for C in (1, 2, 3, 5)],
    "sm": [[N, k, C] for N in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 49) for k, C in ((2, 2), (3, 2), (4, 2), (3, 3), (5, 1), (2, 3))]
    + [[N, k, C] for N in (66, 129, 140, 200) for k, C in ((3, 2), (4, 1), (3, 1), (2, 2))],
    "dep": [[N, L, mr] for N in (1, 2, 3, 4, 5, 6, 9, 13, 17, 24) for L in (0, 1, 2, 3) for mr in (1, 0)],
    "tree": [[N, NT] for N in (1, 2, 3, 4, 5, 6, 9, 13, 17, 24) for NT in (1, 2, 4)],
    "cfg": [[N, NT, T] for N in (2, 3, 4, 5, 6, 8, 11) for NT, T in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2))],
}


def grid(kind, dims):
    "Index array of the event parts, in event shape."
    return np.arange(K.esize(kind, dims)).reshape(K.event_shape(kind, dims))


def cfg_parts(flat, dims):
    N, NT, T = dims
    S = NT + T
    a, b = N * T, N * T + NT * S * S
    return flat[:a].reshape(N, T), flat[a:b].reshape(NT, S, S), flat[b:]


def cfg_join(t, r, o):
    return np.concatenate([t.reshape(-1), r.reshape(-1), o.reshape(-1)])


class Map:
    """new potential e' = old[src[e']] + off[e'] (src < 0: forbidden); new score = old + shift."""

    def __init__(self, kind, dims, src, off=None, shift=0.0, fill=-1e9, split=None):
        self.kind, self.dims, self.src = kind, dims, np.asarray(src).reshape(-1)
        self.off = np.zeros(self.src.shape) if off is None else np.asarray(off, dtype=float).reshape(-1)
        self.shift, self.fill, self.split = shift, fill, split


def relabel(kind, dims, l, rng):
    g = grid(kind, dims)
    if kind == "lc":
        p = rng.permutation(dims[1])
        return Map(kind, dims, g[:, p][:, :, p])
    if kind == "sm":
        p = rng.permutation(dims[2])
        return Map(kind, dims, g[:, :, p][:, :, :, p])
    if kind == "dep":
        return Map(kind, dims, g[:, :, rng.permutation(dims[1])] if dims[1] else g)
    if kind == "tree":
        return Map(kind, dims, g[:, :, rng.permutation(dims[1])])
    N, NT, T = dims
    t, r, o = cfg_parts(g, dims)
    a, b = rng.permutation(NT), rng.permutation(T)
    s = np.concatenate([a, NT + b])
    return Map(kind, dims, cfg_join(t[:, b], r[a][:, s][:, :, s], o[a]))


def shift(kind, dims, l, rng):
    g = grid(kind, dims)
    c = float(rng.randint(-24, 25)) / 8.0
    if rng.randint(3) == 0:  # a large constant; totals stay well inside the range of the library's zero
        c *= min(300.0, 2e4 / (9 * l))
    off = np.full(g.shape, c)
    if kind == "lc":
        return Map(kind, dims, g, off, c * (l - 1))
    if kind == "sm":
        off = off * np.arange(dims[1])[None, :, None, None]
        return Map(kind, dims, g, off, c * (l - 1))
    if kind == "dep":
        return Map(kind, dims, g, off, c * l)
    if kind == "tree":
        return Map(kind, dims, g, off, c * (2 * l - 1))
    return Map(kind, dims, g, off, c * (l + (l - 1) + 1))


def gauge(kind, dims, l, rng):
    "Potentials that cancel along every structure (or sum to a constant)."
    g = grid(kind, dims)
    off = np.zeros(g.shape)
    if kind == "lc":
        N, C = dims
        h = rng.randint(-16, 17, (N, C)) / 8.0
        h[0] = h[l - 1] = 0
        for n in range(min(N - 1, l - 1)):
            off[n] = h[n + 1][:, None] - h[n][None, :]
        return Map(kind, dims, g, off, 0.0)
    if kind == "sm":
        N1, k, C = dims
        h = rng.randint(-16, 17, (N1 + 1, C)) / 8.0
        h[0] = h[l - 1] = 0
        for n in range(N1):
            for w in range(1, k):
                if n + w <= N1:
                    off[n, w] = h[n + w][:, None] - h[n][None, :]
        return Map(kind, dims, g, off, 0.0)
    if kind == "dep":
        # a constant per dependent: every word has exactly one head
        h = rng.randint(-16, 17, dims[0]) / 8.0
        off += (h[None, :, None] if dims[1] else h[None, :])
        return Map(kind, dims, g, off, float(h[:l].sum()))
    if kind == "tree":
        # a constant per leaf and one on the whole sentence
        h = rng.randint(-16, 17, dims[0]) / 8.0
        for i in range(dims[0]):
            off[i, i] = h[i]
        extra = 0.0
        if l > 1:
            extra = float(rng.randint(-16, 17)) / 8.0
            off[0, l - 1] += extra
        return Map(kind, dims, g, off, float(h[:l].sum()) + extra)
    N, NT, T = dims
    t, r, o = cfg_parts(np.zeros(len(g)), dims)
    h = rng.randint(-16, 17, N) / 8.0
    t = t + h[:, None]
    # a value per nonterminal added where it is rewritten, removed where it is introduced
    v = np.concatenate([rng.randint(-16, 17, NT) / 8.0, np.zeros(T)])
    r = r + v[:NT][:, None, None] - v[None, :, None] - v[None, None, :]
    o = o - v[:NT]
    return Map(kind, dims, g, cfg_join(t, r, o), float(h[:l].sum()))


def mirror(kind, dims, l, rng):
    g = grid(kind, dims)
    src = g.copy()
    if kind == "lc":
        for n in range(l - 1):
            src[n] = g[l - 2 - n].T
        return Map(kind, dims, src)
    if kind == "sm":
        for n in range(l - 1):
            for w in range(1, dims[1]):
                if n + w <= l - 1:
                    src[n, w] = g[l - 1 - n - w, w].T
        return Map(kind, dims, src)
    if kind == "dep":
        i = np.arange(dims[0])
        i[:l] = i[:l][::-1]
        return Map(kind, dims, g[i][:, i])
    if kind == "tree":
        i = np.arange(dims[0])
        i[:l] = i[:l][::-1]
        return Map(kind, dims, np.swapaxes(g, 0, 1)[i][:, i])
    t, r, o = cfg_parts(g, dims)
    i = np.arange(dims[0])
    i[:l] = i[:l][::-1]
    return Map(kind, dims, cfg_join(t[i], np.swapaxes(r, 1, 2), o))


def embed(kind, dims, l, rng):
    g = grid(kind, dims)
    if kind == "lc":
        # segmental model that allows width one only
        N, C = dims
        k = 2 + rng.randint(0, 3)
        src = np.full((N - 1, k, C, C), -1)
        src[:, 1] = g
        return Map("sm", [N - 1, k, C], src)
    if kind == "sm":
        # a larger width limit, the new widths forbidden
        N1, k, C = dims
        src = np.full((N1, k + 1, C, C), -1)
        src[:, :k] = g
        return Map(kind, [N1, k + 1, C], src)
    if kind == "dep":
        N, L, mr = dims
        if not L:
            return Map(kind, [N, 1, mr], g[:, :, None])
        if L == 1:
            return Map(kind, [N, 0, mr], g[:, :, 0])
        src = np.full((N, N, L + 1), -1)
        src[:, :, :L] = g
        return Map(kind, [N, L + 1, mr], src)
    if kind == "tree":
        N, NT = dims
        src = np.full((N, N, NT + 1), -1)
        src[:, :, 1:] = g
        return Map(kind, [N, NT + 1], src)
    # an extra nonterminal and terminal that nothing may use
    N, NT, T = dims
    t, r, o = cfg_parts(g, dims)
    t2 = np.full((N, T + 1), -1)
    t2[:, :T] = t
    S = NT + T + 2
    keep = [i for i in range(NT)] + [NT + 1 + i for i in range(T)]
    r2 = np.full((NT + 1, S, S), -1)
    r2[np.ix_(range(NT), keep, keep)] = r
    o2 = np.full(NT + 1, -1)
    o2[:NT] = o
    return Map(kind, [N, NT + 1, T + 1], cfg_join(t2, r2, o2))


def split(kind, dims, l, rng):
    "One state or label becomes two copies that share its weight."
    g = grid(kind, dims)
    if kind in ("lc", "sm"):
        C = dims[-1]
        z = rng.randint(C)
        ids = list(range(C)) + [z]
        src = g[..., ids, :][..., :, ids]
        copy = np.array([1.0 if i in (z, C) else 0.0 for i in range(C + 1)])
        off = np.zeros(src.shape)
        off -= LOG2 * copy[:, None]
        off[0] -= LOG2 * copy[None, :]
        # an item of one position has a state but no part to carry the halved weight
        more = float(np.log((C + 1.0) / C)) if l == 1 else 0.0
        return Map(kind, dims[:-1] + [C + 1], src, off, more, split=True)
    if kind == "dep":
        N, L, mr = dims
        gg = g[:, :, None] if not L else g
        z = rng.randint(gg.shape[2])
        ids = list(range(gg.shape[2])) + [z]
        src = gg[:, :, ids]
        off = np.zeros(src.shape)
        off[:, :, [z, gg.shape[2]]] = -LOG2
        return Map(kind, [N, gg.shape[2] + 1, mr], src, off, split=True)
    if kind == "tree":
        N, NT = dims
        z = rng.randint(NT)
        src = g[:, :, list(range(NT)) + [z]]
        off = np.zeros(src.shape)
        off[:, :, [z, NT]] = -LOG2
        return Map(kind, [N, NT + 1], src, off, split=True)
    N, NT, T = dims
    t, r, o = cfg_parts(g, dims)
    z = rng.randint(NT)
    a = list(range(NT)) + [z]
    s = a + [NT + i for i in range(T)]
    copy = np.array([1.0 if i in (z, NT) else 0.0 for i in range(NT + 1)] + [0.0] * T)
    r2 = r[a][:, s][:, :, s]
    ro = np.zeros(r2.shape) - LOG2 * (copy[None, :, None] + copy[None, None, :])
    oo = -LOG2 * copy[: NT + 1]
    return Map(kind, [N, NT + 1, T], cfg_join(t, r2, o[a]), cfg_join(np.zeros(t.shape), ro, oo), split=True)


MAPS = {"relabel": relabel, "shift": shift, "gauge": gauge, "mirror": mirror, "embed": embed, "split": split}


def potentials(case, B, E, key):
    rng = np.random.RandomState(key)
    scale = {"mid": 16.0, "soft": 64.0, "hard": 4.0, "zero": np.inf}[case["scale"]]
    return rng.randint(-64, 65, (B, E)) / scale + (rng.rand(B, E) * 0.01 if case["scale"] != "zero" else 0.0)


def tensor(kind, dims, v):
    t = torch.tensor(v)
    if kind == "cfg":
        return tuple(p.contiguous() for p in K.split_cfg(t, dims))
    return t.reshape((len(v),) + K.event_shape(kind, dims))


def rows(kind, dims, m, B):
    return K.events(kind, dims, m, (B,))


def check(case):
    kind, dims, B, lens, q = case["kind"], case["dims"], case["B"], case["lens"], case["q"]
    full = K.full_len(kind, dims)
    ls = [full] * B if lens is None else lens
    lt = None if lens is None else torch.tensor(lens)
    E = K.esize(kind, dims)
    phi = potentials(case, B, E, case["pseed"])
    maps = [MAPS[case["map"]](kind, dims, l, np.random.RandomState(case["mseed"])) for l in ls]
    k2, d2 = maps[0].kind, maps[0].dims

    def mapped(p):
        return np.stack([np.where(m.src >= 0, p[b][np.maximum(m.src, 0)] + m.off, m.fill) for b, m in enumerate(maps)])

    new = mapped(phi)
    old = sut(K.make, kind, dims, tensor(kind, dims, phi), lt)
    lt2 = lt
    neu = sut(K.make, k2, d2, tensor(k2, d2, new), lt2)
    is_split = maps[0].split
    top = 1 + max(2 * l * float(np.abs(phi[b]).max() + 1) + abs(maps[b].shift) for b, l in enumerate(ls))
    tol = 1e-9 * top
    val = lambda d, q: sut(lambda: getattr(d, q)).detach().double().numpy()
    if is_split and q not in ("partition", "marginals", "entropy"):
        q = "partition"
    if kind == "cfg" and q in ("count", "kl", "log_prob"):
        q = "marginals"
    if q == "partition":
        a, b = val(old, q), val(neu, q)
        for i in range(B):
            close(b[i], a[i] + maps[i].shift, tol, "log-partition of item %d after %s" % (i, case["map"]))
    elif q == "max":
        a, b = val(old, q), val(neu, q)
        for i in range(B):
            close(b[i], a[i] + maps[i].shift, tol, "max of item %d after %s" % (i, case["map"]))
    elif q == "kmax":
        a, b = (sut(d.kmax, case["k"]).detach().numpy() for d in (old, neu))
        for i in range(B):
            real = a[:, i] > -3e4
            close_array(b[real, i], a[real, i] + maps[i].shift, tol, "k-max of item %d after %s" % (i, case["map"]))
    elif q == "count":
        a, b = val(old, q), val(neu, q)
        if case["map"] not in ("embed",):
            for i in range(B):
                close(b[i], a[i], 1e-9 * abs(a[i]) + 1e-3, "count of item %d after %s" % (i, case["map"]))
    elif q == "kl":
        other = potentials(case, B, E, case["pseed"] + 1)
        a = sut(old.kl, sut(K.make, kind, dims, tensor(kind, dims, other), lt)).detach().numpy()
        b = sut(neu.kl, sut(K.make, k2, d2, tensor(k2, d2, mapped(other)), lt2)).detach().numpy()
        for i in range(B):
            close(b[i], a[i], 30 * tol * max(ls), "KL of item %d after %s" % (i, case["map"]))
    elif q in ("marginals", "entropy", "argmax", "log_prob"):
        what = "argmax" if q in ("argmax", "log_prob") else "marginals"
        ma = rows(kind, dims, sut(lambda: getattr(old, what)), B)
        mb = rows(k2, d2, sut(lambda: getattr(neu, what)), B)
        if q in ("marginals", "argmax"):
            for i, m in enumerate(maps):
                back = np.zeros(E)
                np.add.at(back, m.src[m.src >= 0], mb[i][m.src >= 0])
                if q == "argmax":  # another best structure may be reported: compare scores
                    close(back @ phi[i], ma[i] @ phi[i], tol, "score of the argmax of item %d after %s" % (i, case["map"]))
                    continue
                close_array(back, ma[i], 1e-7, "marginals of item %d after %s" % (i, case["map"]))
                left = mb[i][m.src < 0]
                close_array(left, np.zeros(left.shape), 1e-7, "marginals of forbidden parts of item %d" % i)
        elif q == "log_prob":
            lp = []
            sh = (B,) + K.event_shape(k2, d2)
            ev = np.zeros((B, K.esize(k2, d2)))
            for i, m in enumerate(maps):
                ok = m.src >= 0
                ev[i][ok] = ma[i][m.src[ok]]
            b = sut(neu.log_prob, torch.tensor(ev).reshape(sh)).detach().numpy()
            a = sut(old.log_prob, torch.tensor(ma).reshape((B,) + K.event_shape(kind, dims))).detach().numpy()
            for i in range(B):
                close(b[i], a[i], 10 * tol, "log-probability of the mapped best structure of item %d after %s" % (i, case["map"]))
        else:
            a, b = val(old, "entropy"), val(neu, "entropy")
            for i, m in enumerate(maps):
                extra = 0.0
                if is_split:
                    extra = -float(mb[i] @ m.off)
                    if kind in ("lc", "sm") and ls[i] == 1:
                        return ["trivial:length-one"]
                close(b[i], a[i] + extra, 1e-7 * top, "entropy of item %d after %s" % (i, case["map"]))
    else:
        raise KeyError(q)
    out = ["kind:" + kind, "map:" + case["map"], "q:" + q, "long" if full > 12 else "short"]
    if lens is not None and min(lens) < full:
        out.append("padded")
    if all(K.count(kind, dims, l) < 2 for l in ls):
        out.append("trivial:single-structure")
    return out


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(K.KINDS))
    dims = draw(st.sampled_from(BIG[kind]))
    full = K.full_len(kind, dims)
    B = draw(st.integers(1, 3))
    lens = None
    if draw(st.booleans()):
        lo = K.min_len(kind) if kind != "sm" and kind != "lc" else 1
        lens = [full - draw(st.integers(0, full - lo)) for _ in range(B)]
        if K.needs_full(kind):
            lens[draw(st.integers(0, B - 1))] = full
    m = draw(st.sampled_from(sorted(MAPS)))
    return {
        "kind": kind, "dims": dims, "B": B, "lens": lens, "map": m,
        "q": draw(st.sampled_from(["partition", "marginals", "max", "entropy", "kmax", "argmax", "count", "kl", "log_prob"])),
        "k": draw(st.integers(2, 5)),
        "scale": draw(st.sampled_from(["mid", "soft", "hard", "zero"])),
        "pseed": draw(st.integers(0, 10 ** 6)), "mseed": draw(st.integers(0, 10 ** 6)),
    }


def subs(tier):
    return [Sub("maps", cases(), check, 3000, 40000)]
