"""C13: semiring algebra, against scalar reference semirings in numpy."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K
from ..oracle import lse
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C13"
QUICK = 2
RULE = (
    "a case is (semiring, operation, shapes with broadcasting, dimension, values); "
    "non-trivial when at least two elements are combined and the values are not all zero"
)
FAR = -3e4


# -- reference semirings on element vectors (numpy arrays of length ssize) -----


class RStd:
    size = 1
    zero, one = np.array([0.0]), np.array([1.0])

    @staticmethod
    def plus(xs):
        return np.array([math.fsum(x[0] for x in xs)])

    @staticmethod
    def times(a, b):
        return a * b


class RLog:
    size = 1
    zero, one = np.array([-np.inf]), np.array([0.0])

    @staticmethod
    def plus(xs):
        return np.array([lse(np.array([x[0] for x in xs]))])

    @staticmethod
    def times(a, b):
        return a + b


class RMax(RLog):
    @staticmethod
    def plus(xs):
        return np.array([max(x[0] for x in xs)])


def rkmax(k):
    class RK:
        size = k
        zero = np.full(k, -np.inf)
        one = np.array([0.0] + [-np.inf] * (k - 1))

        @staticmethod
        def plus(xs):
            return np.sort(np.concatenate(xs))[::-1][:k]

        @staticmethod
        def times(a, b):
            return np.sort((a[:, None] + b[None]).ravel())[::-1][:k]

    return RK


class REnt:
    "(log weight, weighted mean of -log p inside): the mean of a mixture of groups."
    size = 2
    zero, one = np.array([-np.inf, 0.0]), np.array([0.0, 0.0])

    @staticmethod
    def plus(xs):
        w = np.array([x[0] for x in xs])
        p = np.exp(w - lse(w))
        h = sum(pi * x[1] for pi, x in zip(p, xs)) - sum(pi * math.log(pi) for pi in p if pi > 0)
        return np.array([lse(w), h])

    @staticmethod
    def times(a, b):
        return a + b


class RCE:
    size = 3
    zero, one = np.array([-np.inf, -np.inf, 0.0]), np.zeros(3)

    @staticmethod
    def plus(xs):
        w, u = np.array([x[0] for x in xs]), np.array([x[1] for x in xs])
        lp, lq = w - lse(w), u - lse(u)
        p = np.exp(lp)
        v = sum(pi * x[2] for pi, x in zip(p, xs)) - sum(pi * q for pi, q in zip(p, lq) if pi > 0)
        return np.array([lse(w), lse(u), v])

    @staticmethod
    def times(a, b):
        return a + b


class RKL(RCE):
    @staticmethod
    def plus(xs):
        w, u = np.array([x[0] for x in xs]), np.array([x[1] for x in xs])
        lp, lq = w - lse(w), u - lse(u)
        p = np.exp(lp)
        v = sum(pi * x[2] for pi, x in zip(p, xs)) + sum(pi * (a - q) for pi, a, q in zip(p, lp, lq) if pi > 0)
        return np.array([lse(w), lse(u), v])


NAMES = ["std", "log", "max", "kmax", "ent", "ce", "kl", "sampled", "multi", "gumbel", "gumbelcrf"]
OPS = ["sum", "plus", "mul", "times", "prod", "dot", "matmul", "one", "zero", "assoc", "distrib", "fill", "sparse", "convert"]


def get(name, k):
    T = ts()
    return {
        "std": lambda: (T.StdSemiring, RStd),
        "log": lambda: (T.LogSemiring, RLog),
        "max": lambda: (T.MaxSemiring, RMax),
        "kmax": lambda: (T.KMaxSemiring(k), rkmax(k)),
        "ent": lambda: (T.EntropySemiring, REnt),
        "ce": lambda: (T.CrossEntropySemiring, RCE),
        "kl": lambda: (T.KLDivergenceSemiring, RKL),
        "sampled": lambda: (T.SampledSemiring, RLog),
        "multi": lambda: (T.MultiSampledSemiring, RLog),
        "gumbel": lambda: (T.GumbelMaxSemiring(1.0), RLog),
        "gumbelcrf": lambda: (T.GumbelCRFSemiring(1.0), RLog),
    }[name]()


class Source:
    def __init__(self, case):
        self.raw = np.frombuffer(bytes.fromhex(case["vals"]), dtype=np.uint8)
        self.i = 0
        self.case = case
        self.dt = torch.float32 if case["dtype"] == "f32" else torch.float64

    def elements(self, R, shape):
        """Random elements: array (ssize,)+shape of reference values."""
        n = int(np.prod(shape)) if len(shape) else 1
        out = np.zeros((R.size, n))
        for j in range(n):
            z = []
            for _ in range(R.size):
                z.append(self._next())
            z = np.array(z)
            if self.case["name"] == "kmax":
                z = np.sort(z)[::-1]
                drop = int(abs(self._next() * 8)) % (R.size + 2)
                if 0 < drop < R.size:
                    z[drop:] = -1e5
            out[:, j] = z
        return out.reshape((R.size,) + tuple(shape))

    def _next(self):
        if not len(self.raw):
            return 0.0
        b = int(self.raw[self.i % len(self.raw)])
        r = self.i // len(self.raw)
        self.i += 1
        z = (b // 2 if b % 2 == 0 else -((b + 1) // 2)) / 16.0
        return z + ((self.i * 0.6180339887) % 1.0 if r or self.case["jit"] else 0.0)

    def tensor(self, a):
        return torch.tensor(a, dtype=self.dt)


def ref_sum(R, a, axis):
    "a: (ssize, ...); axis counted without the ssize dimension."
    a = np.moveaxis(a, axis + 1, -1)
    sh = a.shape[1:-1]
    out = np.zeros((R.size,) + sh)
    for i in np.ndindex(*sh):
        out[(slice(None),) + i] = R.plus([a[(slice(None),) + i + (j,)] for j in range(a.shape[-1])])
    return out


def ref_map(R, f, *arrs):
    sh = np.broadcast_shapes(*[a.shape[1:] for a in arrs])
    arrs = [np.broadcast_to(a, (R.size,) + sh) for a in arrs]
    out = np.zeros((R.size,) + sh)
    for i in np.ndindex(*sh):
        out[(slice(None),) + i] = f(*[a[(slice(None),) + i] for a in arrs])
    return out


def ref_matmul(R, a, b):
    return ref_sum(R, ref_map(R, R.times, a[..., :, None, :], np.swapaxes(b, -1, -2)[..., None, :, :]), len(np.broadcast_shapes(a.shape[1:-2], b.shape[1:-2])) + 2)


def same(got, want, case, what):
    expect(tuple(got.shape) == want.shape, "%s has shape %s, expected %s", what, tuple(got.shape), want.shape)
    g = got.detach().double().numpy()
    far = want < FAR
    expect((g[far] < FAR).all(), "%s: an absent value became %r", what, float(g[far].max()) if far.any() else 0)
    w = np.where(far, 0, want)
    tol = (3e-5 if case["dtype"] == "f32" else 1e-9) * 20 * (1 + np.abs(w).max() if w.size else 1)
    judge.close_array(np.where(far, 0, g), w, tol, what)


def check(case):
    name, op = case["name"], case["op"]
    S, R = get(name, case["k"])
    src = Source(case)
    shape = tuple(case["shape"])
    what = "%s %s" % (name, op)
    n = 2
    expect(sut(S.size) == R.size, "%s size is %s", name, S.size())
    if op == "sum":
        a = src.elements(R, shape)
        ax = case["axis"] % len(shape)
        if name == "kmax":
            ax = len(shape) - 1
        dim = ax - len(shape) if case["neg"] or name == "kmax" else ax + 1
        x = src.tensor(a)
        if case["lay"]:
            x = K.lay_out(x, "rev")
        got = sut(S.sum, x) if dim == -1 and case["neg"] else sut(lambda: S.sum(x, dim=dim))
        same(got, ref_sum(R, a, ax), case, what + " over dimension %d" % dim)
        n = shape[ax]
    elif op in ("plus", "mul"):
        a, b = src.elements(R, shape), src.elements(R, shape)
        got = sut(getattr(S, op), src.tensor(a), src.tensor(b))
        f = (lambda u, v: R.plus([u, v])) if op == "plus" else R.times
        same(got, ref_map(R, f, a, b), case, what)
    elif op == "times":
        xs = [src.elements(R, shape) for _ in range(case["m"])]
        want = xs[0]
        for y in xs[1:]:
            want = ref_map(R, R.times, want, y)
        same(sut(S.times, *[src.tensor(x) for x in xs]), want, case, what)
    elif op == "prod":
        if name == "kmax":
            return ["trivial:no-prod"]
        a = src.elements(R, shape)
        ax = case["axis"] % len(shape)
        want = np.moveaxis(a, ax + 1, -1)
        acc = want[..., 0]
        for j in range(1, want.shape[-1]):
            acc = ref_map(R, R.times, acc, want[..., j])
        same(sut(lambda: S.prod(src.tensor(a), dim=ax - len(shape))), acc, case, what)
    elif op == "dot":
        m = case["m"]
        sa, sb = broadcasted(shape, case["bc"])
        a, b = src.elements(R, sa + (m,)), src.elements(R, sb + (m,))
        want = ref_sum(R, ref_map(R, R.times, a, b), len(shape))
        same(sut(S.dot, src.tensor(a), src.tensor(b)), want, case, what)
        n = m
    elif op == "matmul":
        m = case["m"]
        sa, sb = broadcasted(shape[:-1], case["bc"])
        a = src.elements(R, sa + (shape[-1], m))
        b = src.elements(R, sb + (m, case["m2"]))
        x, y = src.tensor(a), src.tensor(b)
        if case["lay"]:
            x, y = K.lay_out(x, "rev"), K.lay_out(y, "rev")
        same(sut(S.matmul, x, y), ref_matmul(R, a, b), case, what)
        n = m
    elif op in ("one", "zero"):
        a = src.elements(R, shape)
        e = sut(lambda: S.fill(torch.zeros((R.size,) + shape, dtype=src.dt), torch.tensor(True), getattr(S, op)))
        if op == "one":
            same(sut(S.mul, src.tensor(a), e), a, case, "x times one")
            same(sut(S.mul, e, src.tensor(a)), a, case, "one times x")
        else:
            same(sut(S.plus, src.tensor(a), e), a, case, "x plus zero")
            same(sut(S.plus, e, src.tensor(a)), a, case, "zero plus x")
            z = sut(S.mul, src.tensor(a), e).double().numpy()
            if name == "std":
                expect((z == 0).all(), "x times zero is %r", z)
            else:
                lead = 2 if name in ("ce", "kl") else 1 if name == "ent" else R.size
                expect((z[:lead] < FAR).all(), "x times zero is %r", z[:lead].max())
    elif op == "assoc":
        a, b, c = (src.tensor(src.elements(R, shape)) for _ in range(3))
        for f in (S.plus, S.mul):
            l = sut(f, sut(f, a, b), c)
            same(l, sut(f, a, sut(f, b, c)).detach().double().numpy(), case, "associativity")
            same(sut(f, a, b), sut(f, b, a).detach().double().numpy(), case, "commutativity")
    elif op == "distrib":
        a, b, c = (src.tensor(src.elements(R, shape)) for _ in range(3))
        l = sut(S.mul, a, sut(S.plus, b, c))
        r = sut(S.plus, sut(S.mul, a, b), sut(S.mul, a, c))
        same(l, r.detach().double().numpy(), case, "distributivity")
    elif op == "fill":
        a = src.elements(R, shape)
        mask = (src.elements(RStd, shape)[0] * 16).astype(int) % 2 == 0
        v = S.one if case["neg"] else S.zero
        x = src.tensor(a)
        got = sut(S.fill, x, torch.tensor(mask), v).double().numpy()
        want = np.where(mask[None], v.double().numpy().reshape((-1,) + (1,) * len(shape)), a)
        judge.close_array(got, want, 1e-5, "fill")
    elif op == "sparse":
        if name not in ("max", "kmax"):
            return ["trivial:no-sparse"]
        a = src.elements(R, shape)
        x = src.tensor(a)
        v, (comp, pos) = sut(S.sparse_sum, x)
        same(v, ref_sum(R, a, len(shape) - 1), case, what)
        expect(tuple(comp.shape) == tuple(v.shape) and tuple(pos.shape) == tuple(v.shape), "back pointers have shape %s/%s", tuple(comp.shape), tuple(pos.shape))
        for i in np.ndindex(*shape[:-1]):
            seen = set()
            for j in range(R.size):
                cj, pj = int(comp[(j,) + i]), int(pos[(j,) + i])
                expect(0 <= cj < R.size and 0 <= pj < shape[-1], "back pointer out of range")
                expect(x[(cj,) + i + (pj,)] == v[(j,) + i], "back pointer does not lead to the value")
                expect((cj, pj) not in seen, "back pointers repeat")
                seen.add((cj, pj))
        n = shape[-1]
    elif op == "convert":
        p = src.elements(RStd, shape)[0]
        q = src.elements(RStd, shape)[0]
        if name in ("ce", "kl"):
            c = sut(S.convert, [src.tensor(p), src.tensor(q)])
            want = np.stack([p, q, 0 * p])
        elif name == "ent":
            c = sut(S.convert, src.tensor(p))
            want = np.stack([p, 0 * p])
        elif name == "kmax":
            c = sut(S.convert, src.tensor(p))
            want = np.concatenate([p[None], np.full((R.size - 1,) + shape, -np.inf)])
            expect(c.shape[0] == R.size, "convert gives %d components", c.shape[0])
        else:
            c = sut(S.convert, src.tensor(p))
            want = p[None]
        expect(c.dtype == src.dt, "convert changes dtype to %s", c.dtype)
        same(c, want, case, what)
        a = src.elements(R, shape)
        u = sut(S.unconvert, src.tensor(a))
        comp = {"ent": 1, "ce": 2, "kl": 2}.get(name, 0)
        judge.close_array(u.double().numpy(), src.tensor(a).double().numpy()[comp], 0, "unconvert")
    out = ["semiring:" + name, "op:" + op]
    if n < 2 or not case["vals"].strip("0"):
        out.append("trivial:single-element" if n < 2 else "trivial:zero-values")
    return out


def broadcasted(shape, bc):
    "Two shapes whose broadcast is shape; bits of bc choose which side is 1."
    a, b = list(shape), list(shape)
    for i in range(len(shape)):
        r = (bc >> (2 * i)) & 3
        if r == 1:
            a[i] = 1
        elif r == 2:
            b[i] = 1
    return tuple(a), tuple(b)


def definitions(case):
    """Summing converted structures gives the documented quantity: scores of a list of
    alternatives, each a product of several parts."""
    name = case["name"]
    S, R = get(name, case["k"])
    src = Source(case)
    n, m = case["shape"][0] + 1, case["m"]
    P, Q = src.elements(RStd, (n, m))[0], src.elements(RStd, (n, m))[0]
    sp, sq = P.sum(1), Q.sum(1)
    if name in ("ce", "kl"):
        c = sut(S.convert, [src.tensor(P), src.tensor(Q)])
    else:
        c = sut(S.convert, src.tensor(P))
    prods = sut(S.times, *[c[..., j] for j in range(m)])
    tot = sut(S.sum, prods)
    got = np.atleast_1d(sut(S.unconvert, tot).detach().double().numpy())[0]
    lp, lq = sp - lse(sp), sq - lse(sq)
    p = np.exp(lp)
    if name == "std":
        want = P.prod(1).sum()
    elif name in ("max", "kmax"):
        want = sp.max()
    elif name == "ent":
        want = -(p * lp).sum()
    elif name == "ce":
        want = -(p * lq).sum()
    elif name == "kl":
        want = (p * (lp - lq)).sum()
    else:
        want = lse(sp)
    t = (3e-5 if case["dtype"] == "f32" else 1e-9) * 20 * (1 + np.abs(sp).max() + np.abs(sq).max() + abs(want))
    judge.close(got, want, t, "%s of %d alternatives" % (name, n))
    if name == "kmax":
        w = np.sort(sp)[::-1][: case["k"]]
        g = tot.detach().double().numpy().reshape(-1)
        judge.close_array(g[: len(w)], w, t, "k best of %d alternatives" % n)
        expect((g[len(w):] < FAR).all(), "surplus k-best value")
    return ["semiring:" + name]


@st.composite
def algebra_case(draw):
    name = draw(st.sampled_from(NAMES[:7] * 2 + NAMES[7:]))
    op = draw(st.sampled_from(OPS))
    if op == "sparse":
        name = draw(st.sampled_from(["max", "kmax"]))
    shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    return {
        "name": name, "op": op, "k": draw(st.integers(1, 5)), "shape": shape,
        "axis": draw(st.integers(0, 2)), "neg": draw(st.booleans()), "lay": draw(st.booleans()),
        "m": draw(st.integers(1, 4)), "m2": draw(st.integers(1, 3)), "bc": draw(st.integers(0, 63)),
        "jit": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "vals": draw(st.binary(min_size=1, max_size=60)).hex(),
    }


@st.composite
def long_case(draw):
    "Sums and products over many entries."
    c = draw(algebra_case())
    k = draw(st.sampled_from([7, 9, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 70, 100, 128, 129, 200, 257]))
    c["op"] = draw(st.sampled_from(["sum", "sum", "dot", "matmul", "sparse", "plus", "mul"]))
    if c["op"] == "sparse":
        c["name"] = draw(st.sampled_from(["max", "kmax"]))
    c["shape"] = draw(st.sampled_from([[k], [2, k], [k, 2], [1, k, 2]])) if c["op"] != "matmul" else [2]
    if c["op"] == "dot":
        c["shape"] = draw(st.sampled_from([[], [1], [3], [2, 2]]))
    if c["op"] == "sum":
        c["axis"] = c["shape"].index(k)
    c["m"] = k
    c["k"] = draw(st.sampled_from([1, 2, 3, 5, 8, 17, 20]))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    c["vals"] = rng.bytes(97).hex()
    return c


@st.composite
def long_definition(draw):
    c = draw(algebra_case())
    c["shape"] = [draw(st.sampled_from([8, 16, 31, 32, 33, 64, 65, 99, 127, 128, 129, 255, 256, 300]))]
    c["k"] = draw(st.sampled_from([1, 2, 3, 5, 8, 17, 40]))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    c["vals"] = rng.bytes(101).hex()
    return c


def softened(case):
    "The softened maximum of greedy search: the maximum going forward, a softmax of the scaled scores as tokens."
    B, C = case["B"], case["C"]
    dt = torch.float32 if case["dtype"] == "f32" else torch.float64
    rng = np.random.RandomState(case["seed"])
    x = torch.tensor(rng.randint(-64, 65, (1, B, C)) / case["div"], dtype=dt)
    if case["rev"]:
        x = x.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    x.requires_grad_(True)
    S = sut(ts().TempMax, case["alpha"])
    m, (pos, tok) = sut(S.sparse_sum, x)
    v = x.detach().double().numpy()
    expect(tuple(m.shape) == (1, B) and tuple(pos.shape) == (1, B) and tuple(tok.shape) == (1, B, C), "shapes are %s, %s and %s", tuple(m.shape), tuple(pos.shape), tuple(tok.shape))
    expect((pos == 0).all(), "positions of a beam of one are %s", pos.tolist())
    judge.close_array(m.detach().double().numpy(), v.max(-1), 0, "maximum")
    z = case["alpha"] * v
    z = np.exp(z - z.max(-1, keepdims=True))
    judge.close_array(tok.detach().double().numpy(), z / z.sum(-1, keepdims=True), 1e-5 if dt == torch.float32 else 1e-12, "soft tokens")
    (g,) = sut(torch.autograd.grad, m.sum(), x)
    g = g.double().numpy()
    expect((g.sum(-1) == 1).all() and (v[g > 0] == np.repeat(v.max(-1).ravel(), (g > 0).sum(-1).ravel())).all(), "gradient of the maximum is %s", g.tolist())
    return ["alpha:%g" % case["alpha"]] + (["trivial:single-entry"] if C == 1 else [])


@st.composite
def softened_case(draw):
    return {"B": draw(st.integers(1, 4)), "C": draw(st.sampled_from([2, 3, 5, 17, 1, 130])), "dtype": draw(st.sampled_from(["f64", "f32"])),
            "seed": draw(st.integers(0, 10 ** 6)), "div": draw(st.sampled_from([64.0, 8.0, 1.0])), "rev": draw(st.booleans()),
            "alpha": draw(st.sampled_from([1.0, 0.5, 2.0, 0.1, 10.0, 100.0]))}


def subs(tier):
    return [
        Sub("algebra", algebra_case(), check, 6000, 80000),
        Sub("definitions", algebra_case(), definitions, 1500, 20000),
        Sub("long", long_case(), check, 250, 4000),
        Sub("softened", softened_case(), softened, 150, 2000),
        Sub("long-definitions", long_definition(), definitions, 120, 2000),
    ]
