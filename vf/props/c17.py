"""C17: histories of queries over several live models, each answer judged on its own."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import armodel, huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C17"
RULE = (
    "a case is up to three models of any kind (own or shared tensors, any layout) and a list "
    "of up to twelve queries over them, each with gradient tracking on or off; every answer is "
    "judged by enumeration (large and autoregressive models: by a fresh model asked only that), "
    "and inputs and earlier answers are compared with copies; "
    "non-trivial when at least two queries are made and some queried item has two structures"
)
Q_T = ["partition", "marginals", "max", "argmax", "mode", "entropy", "count", "kmax", "topk", "sample",
       "log_prob", "cross_entropy", "kl", "grad", "struct", "gumbel", "rebuild"]
Q_C = ["partition", "marginals", "max", "argmax", "entropy", "kmax", "grad", "struct", "rebuild"]
Q_N = ["partition", "marginals", "log_prob"]


class Live:
    def __init__(self, case, tensor=None, lt=None):
        self.case = case
        if case["kind"] == "np":
            self.bt = K.Built(dict(case))
        else:
            self.bt = K.Built(case)
        if tensor is not None:
            self.bt.x = tensor
        if lt is not None:
            self.bt.lt = lt
        self.d = self.bt.dist()

    @property
    def parts(self):
        return list(self.bt.x) if self.bt.kind == "cfg" else [self.bt.x]


def ask(live, op, others):
    d, bt, q = live.d, live.bt, op["q"]
    if q in ("partition", "marginals", "max", "argmax", "mode", "entropy", "count"):
        return sut(lambda: getattr(d, q))
    if q in ("kmax", "topk"):
        return sut(getattr(d, q), op["k"])
    if q == "sample":
        return sut(d.sample, (op["k"],))
    if q == "gumbel":
        return sut(d.gumbel_crf, 0.5 * op["k"])
    if q == "log_prob":
        ev = np.stack([bt.exact(b).M[op["pick"] % len(bt.exact(b).M)] for b in bt.items()])
        return sut(d.log_prob, torch.tensor(ev, dtype=bt.dtype).reshape((bt.B,) + K.event_shape(bt.kind, bt.dims)))
    if q in ("cross_entropy", "kl"):
        return sut(getattr(d, q), others.d)
    if q == "grad":
        xs = live.parts
        if any(not x.requires_grad for x in xs):
            return None
        with torch.enable_grad():
            return sut(lambda: torch.autograd.grad(d.partition.sum(), xs, retain_graph=True))
    if q == "struct":
        # the structure classes used directly
        cls = {"lc": "LinearChain", "sm": "SemiMarkov", "dep": "DepTree", "tree": "CKY_CRF", "cfg": "CKY"}[bt.kind]
        s = getattr(ts(), cls)(getattr(ts(), "MaxSemiring" if op["k"] % 2 else "LogSemiring"))
        return sut(s.sum, bt.x, bt.lt)
    if q == "rebuild":
        live.d = bt.dist()
        return None
    raise KeyError(q)


def judge_answer(live, op, a, others):
    bt, q = live.bt, op["q"]
    if a is None:
        return
    if bt.kind == "np":
        x = torch.tensor(bt.phi, dtype=bt.dtype).reshape((bt.B,) + K.event_shape(bt.kind, bt.dims))
        fresh = sut(K.make, bt.kind, bt.dims, x, bt.lt)
        with torch.no_grad():
            w = ask(type("L", (), {"d": fresh, "bt": bt})(), op, None)
        judge.close_array(a.detach().double().numpy(), w.detach().double().numpy(), 1e-4 if bt.f32 else 1e-9, "non-projective %s" % q)
        return
    if q in ("partition", "max", "entropy", "count", "log_prob", "cross_entropy", "kl", "struct"):
        if q == "struct" and bt.kind == "dep" and not bt.dims[2]:
            return  # the bare structure is multi-root
        v = judge.vector(a, bt, q)
        for b in bt.items():
            ex = bt.exact(b)
            tol = 30 * bt.tol(b) * (1 + (ex.scale if q in ("entropy", "cross_entropy", "kl") else 0))
            if q == "partition" or (q == "struct" and not op["k"] % 2):
                w = ex.logZ
            elif q in ("max", "struct"):
                w = ex.max
            elif q == "entropy":
                w = ex.entropy
            elif q == "count":
                w, tol = len(ex.M), 1e-3
            elif q == "log_prob":
                w = ex.scores[op["pick"] % len(ex.M)] - ex.logZ
            else:
                eo = others.bt.exact(b)
                tol = max(tol, 30 * others.bt.tol(b) * (1 + eo.scale))
                lq = eo.scores - eo.logZ
                w = -float(ex.p @ lq)
                if q == "kl":
                    w -= ex.entropy
            judge.close(v[b], w, tol, "%s of item %d" % (q, b))
    elif q in ("marginals", "grad"):
        if q == "grad":
            a = tuple(a) if bt.kind == "cfg" else a[0]
        rows = judge.event_tensor(a, bt, q)
        for b in bt.items():
            judge.close_array(rows[b], bt.exact(b).marg, 30 * bt.tol(b), "%s of item %d" % (q, b))
    elif q in ("argmax", "mode"):
        rows = judge.event_tensor(a, bt, q)
        if bt.kind == "cfg":
            for b in bt.items():
                judge.close(float(rows[b] @ bt.phi[b]), bt.exact(b).max, 30 * bt.tol(b), "score of argmax")
            return
        for b in bt.items():
            i = judge.legal(rows[b], bt, b, q)[0]
            judge.close(bt.exact(b).scores[i], bt.exact(b).max, 30 * bt.tol(b), "score of %s of item %d" % (q, b))
    elif q == "kmax":
        v = judge.vector(a, bt, q, (op["k"],))
        for b in bt.items():
            w = bt.exact(b).kbest(op["k"])
            judge.close_array(v[: len(w), b], w, 30 * bt.tol(b), "k-max of item %d" % b)
    elif q in ("topk", "sample"):
        rows = judge.event_tensor(a, bt, q, (op["k"],))
        for b in bt.items():
            m = min(op["k"], len(bt.exact(b).M)) if q == "topk" else op["k"]
            w = bt.exact(b).kbest(op["k"])
            for i in range(m):
                j = judge.legal(rows[i, b], bt, b, "%s entry %d" % (q, i))[0]
                if q == "topk":
                    judge.close(bt.exact(b).scores[j], w[i], 30 * bt.tol(b), "score of top-k entry %d of item %d" % (i, b))
    elif q == "gumbel":
        pass  # legality is C22's concern
    else:
        raise KeyError(q)


def copies(t):
    if isinstance(t, (tuple, list)):
        return [copies(x) for x in t]
    return t.detach().clone() if isinstance(t, torch.Tensor) else t


def same(t, c):
    if isinstance(t, (tuple, list)):
        return all(same(x, y) for x, y in zip(t, c))
    if not isinstance(t, torch.Tensor):
        return True
    t = t.detach()
    return t.shape == c.shape and t.dtype == c.dtype and bool(((t == c) | ((t != t) & (c != c))).all())


RANDOM = ("sample", "gumbel", "greedy_tempmax", "without")


class ambient:
    "Settings shared by the whole process that a query must leave as they were."

    def __init__(self, q, where, nograd):
        self.q, self.where, self.nograd = q, where, nograd

    def __enter__(self):
        self.outer = torch.is_grad_enabled()
        torch.set_grad_enabled(not self.nograd)
        self.rng, self.dtype = torch.get_rng_state(), torch.get_default_dtype()

    def __exit__(self, kind, value, tb):
        mode = torch.is_grad_enabled()
        torch.set_grad_enabled(self.outer)
        if kind is not None:
            return
        expect(mode == (not self.nograd), "%s switched gradient tracking %s", self.where, "on" if mode else "off")
        expect(torch.get_default_dtype() == self.dtype, "%s changed the default dtype", self.where)
        expect(self.q in RANDOM or torch.equal(torch.get_rng_state(), self.rng), "%s used up random numbers", self.where)


def check(case):
    lives = []
    for i, m in enumerate(case["models"]):
        src = m.get("share")
        if src is not None:
            base = case["models"][src]
            mm = dict(base, dims=m["dims"])
            lives.append(Live(mm, lives[src].bt.x, lives[src].bt.lt))
        else:
            lives.append(Live(m))
    before = [(copies(l.bt.x), copies(l.bt.lt)) for l in lives]
    kept = []
    labs = set()
    for n, op in enumerate(case["ops"]):
        live = lives[op["m"] % len(lives)]
        op = dict(op)
        menu = Q_C if live.bt.kind == "cfg" else Q_N if live.bt.kind == "np" else Q_T
        op["q"] = menu[op["q"] % len(menu)]
        mates = [l for l in lives if l.bt.kind == live.bt.kind and l.bt.dims == live.bt.dims
                 and l.bt.B == live.bt.B and l.bt.lens == live.bt.lens and l.bt.dtype == live.bt.dtype]
        mate = mates[op["pick"] % len(mates)]
        where = "query %d (%s on model %d of %d)" % (n, op["q"], op["m"] % len(lives), len(lives))
        with ambient(op["q"], where, op["nograd"]):
            a = ask(live, op, mate)
        try:
            judge_answer(live, op, a, mate)
        except Exception as e:
            if type(e).__name__ == "Violation":
                expect(False, "%s: %s", where, str(e))
            raise
        for l, (x, lt) in zip(lives, before):
            expect(same(l.bt.x, x), "%s changed the values of a model's potentials", where)
            expect(l.bt.lt is None or torch.equal(l.bt.lt, lt), "%s changed the lengths passed in", where)
        if a is not None:
            kept.append((where, a, copies(a)))
        labs.add("q:" + op["q"])
        labs.add("kind:" + live.bt.kind)
    for where, a, c in kept:
        expect(same(a, c), "the answer of %s was changed by later queries", where)
    if len(lives) > 1:
        labs.add("several-models")
    if any("share" in m for m in case["models"]):
        labs.add("shared-tensor")
    if len({l.bt.dims[2] for l in lives if l.bt.kind == "dep"}) > 1:
        labs.add("mixed-multiroot")
    for l in lives:
        labs.add("layout:" + l.case.get("layout", "c"))
    if len(case["ops"]) < 2:
        labs.add("trivial:one-query")
    elif all(K.count(l.bt.kind, l.bt.dims, n) < 2 for l in lives if l.bt.kind != "np" for n in l.bt.lens) and not any(l.bt.kind == "np" for l in lives):
        labs.add("trivial:single-structure")
    return sorted(labs)


@st.composite
def history(draw):
    models = []
    n = draw(st.integers(1, 3))
    group = draw(st.sampled_from([tuple(K.KINDS), tuple(K.KINDS), ("dep",), ("lc", "sm"), ("tree", "cfg"), ("np", "dep")]))
    for i in range(n):
        if models and draw(st.integers(0, 2)) == 2:
            j = draw(st.integers(0, len(models) - 1))
            if "share" not in models[j]:
                dims = list(models[j]["dims"])
                if models[j]["kind"] == "dep":
                    dims[2] = 1 - dims[2]
                elif models[j]["kind"] == "np":
                    dims[1] = 1 - dims[1]
                models.append({"share": j, "dims": dims})
                continue
        twin = models and draw(st.booleans())
        kinds = group
        if twin and "kind" in models[0] and models[0]["kind"] != "np":
            # same shape and lengths as an earlier model, so that the two can be compared
            m = dict(models[0])
            k = len(m["vals"]) // 2
            m["vals"] = draw(st.binary(min_size=k, max_size=k)).hex()
            m["layout"] = draw(st.sampled_from(K.LAYOUTS))
            if m["layout"] != "exp":
                models.append(m)
                continue
        c = draw(K.model_case(kinds=kinds, table="tiny", max_b=2, layouts=tuple(K.LAYOUTS),
                              profiles=("dyadic", "jitter", "ties", "wide", "tiny") if "np" not in kinds else ("np",)))
        models.append(c)
    ops = [
        {"m": draw(st.integers(0, n - 1)), "q": draw(st.integers(0, 35)), "k": draw(st.integers(1, 4)),
         "pick": draw(st.integers(0, 50)), "nograd": draw(st.booleans())}
        for _ in range(draw(st.integers(2, 12)))
    ]
    return {"models": models, "ops": ops}


def near(a, w, tol, what, overflow=False):
    "Two answers (tensors or tuples of them) agree."
    if isinstance(a, (tuple, list)):
        for x, y in zip(a, w):
            near(x, y, tol, what, overflow)
        return
    expect(a.shape == w.shape and a.dtype == w.dtype, "%s: shape or type differs from a fresh model's", what)
    a, w = a.detach().double().numpy(), w.detach().double().numpy()
    far = np.isinf(w) & (a == w)
    if overflow:  # a count too large for the type is infinite, or not a number when it met a zero
        far |= ~np.isfinite(w) & ~np.isfinite(a)
    big = float(np.abs(w[np.isfinite(w)]).max()) if np.isfinite(w).any() else 0.0
    judge.close_array(np.where(far, 0, a), np.where(far, 0, w), tol * max(1.0, big), what + " vs a fresh model")


Q_L = ["partition", "marginals", "max", "argmax", "entropy", "count", "kmax", "kl", "cross_entropy", "sample", "grad"]
Q_LC = ["partition", "marginals", "max", "argmax", "entropy", "kmax", "grad"]


def large(case):
    "Two live large models; every answer is compared with a fresh model asked only that."
    h = [huge.Huge(case), huge.Huge(case, "vseed2")]
    live = [x.dist() for x in h]
    before = [(copies(x.x), copies(x.lt)) for x in h]
    kept, labs = [], set()

    def answer(d, other, x, q, k):
        if q == "kmax":
            return sut(d.kmax, k)
        if q in ("kl", "cross_entropy"):
            return sut(getattr(d, q), other)
        if q == "sample":
            return sut(d.sample, (k,))
        if q == "grad":
            xs = list(x) if isinstance(x, tuple) else [x]
            if case["layout"] != "grad":
                return None
            with torch.enable_grad():
                return sut(lambda: torch.autograd.grad(d.partition.sum(), xs, retain_graph=True))
        return sut(lambda: getattr(d, q))

    for n, (m, q, k, nograd) in enumerate(case["ops"]):
        menu = Q_LC if case["kind"] == "cfg" else Q_L
        q = menu[q % len(menu)]
        where = "query %d (%s on model %d)" % (n, q, m)
        with ambient(q, where, nograd):
            a = answer(live[m], live[1 - m], h[m].x, q, k)
            f = [huge.Huge(case), huge.Huge(case, "vseed2")] if q == "grad" else h
            w = answer(f[m].dist(), f[1 - m].dist(), f[m].x, q, k) if q != "sample" else None
        labs.add("q:" + q)
        if a is None:
            continue
        if q == "sample":
            ev = K.events(h[m].kind, h[m].dims, a, (k, h[m].B))
            for b in h[m].judged():
                for i in range(k):
                    huge.member(h[m], b, ev[i, b], "%s: sample" % where)
        else:
            near(a, w, 0.0 if q == "argmax" else max(h[m].ptol(b) if q in ("marginals", "grad") else h[m].tol(b) for b in h[m].items()), where, q == "count")
        for x, (c, lt) in zip(h, before):
            expect(same(x.x, c), "%s changed the values of a model's potentials", where)
            expect(x.lt is None or torch.equal(x.lt, lt), "%s changed the lengths passed in", where)
        kept.append((where, a, copies(a)))
    for where, a, c in kept:
        expect(same(a, c), "the answer of %s was changed by later queries", where)
    return sorted(labs) + h[0].labels()


@st.composite
def large_case(draw):
    c = draw(huge.huge_case(scales=("soft", "mid", "sharp"), styles=("normal", "sparse"), max_e=2500, two=True, layouts=("c", "rev", "grad")))
    c["ops"] = [[draw(st.integers(0, 1)), draw(st.integers(0, 30)), draw(st.integers(1, 3)), draw(st.booleans())]
                for _ in range(draw(st.integers(2, 6)))]
    return c


Q_A = ["log_prob", "greedy_max", "greedy_tempmax", "beam_topk", "sample", "without"]


def autoregressive(case):
    "Histories of queries on two live autoregressive models."
    specs = [armodel.Spec(c) for c in case["models"]]
    cells, live = [], []
    for sp in specs:
        state = sp.initial()
        sp.initial = lambda state=state: state  # the live model's own state tensors
        live.append(sut(sp.dist))
        cells.append((state, copies(state)))
    kept, labs = [], set()

    def answer(sp, d, q, k, seqs):
        if q == "log_prob":
            return sut(d.log_prob, seqs, sparse=True)
        if q == "greedy_max":
            return sut(d.greedy_max)
        if q == "greedy_tempmax":
            return sut(d.greedy_tempmax, 0.5 * k)
        if q == "beam_topk":
            return sut(d.beam_topk, k)
        if q == "sample":
            return sut(d.sample, (k,))
        return sut(d.sample_without_replacement, (min(k, sp.C ** sp.N),))

    for n, (m, q, k, nograd) in enumerate(case["ops"]):
        m, q = m % len(live), Q_A[q % len(Q_A)]
        sp = specs[m]
        where = "query %d (%s on model %d)" % (n, q, m)
        rng = np.random.RandomState(n + 10 * k)
        seqs = torch.tensor(rng.randint(0, sp.C, (k, sp.B, sp.N)))
        with ambient(q, where, nograd):
            a = answer(sp, live[m], q, k, seqs)
            w = answer(sp, armodel.Spec(case["models"][m]).dist(), q, k, seqs) if q in ("log_prob", "greedy_max", "beam_topk") else None
        if w is not None:
            near(a, w, 0.0 if q == "beam_topk" else 100 * sp.tol, where)
        elif q != "greedy_tempmax":  # which draws noise, as scheduled sampling does
            v = a.detach().double().numpy()
            expect(np.isin(v, (0.0, 1.0)).all() and (v.sum(-1) == 1).all(), "%s is not a one-hot sequence", where)
        for state, c in cells:
            expect(same(state, c), "%s changed an initial state passed in", where)
        kept.append((where, a, copies(a)))
        labs.add("q:" + q)
    for where, a, c in kept:
        expect(same(a, c), "the answer of %s was changed by later queries", where)
    return sorted(labs | {"autoregressive"}) + (["trivial:one-query"] if len(case["ops"]) < 2 else [])


@st.composite
def ar_case(draw):
    models = [draw(armodel.spec_case(scales=("soft", "mid", "sharp"))) for _ in range(draw(st.integers(1, 2)))]
    ops = [[draw(st.integers(0, 1)), draw(st.integers(0, 29)), draw(st.integers(1, 4)), draw(st.booleans())]
           for _ in range(draw(st.integers(2, 8)))]
    return {"models": models, "ops": ops}


def subs(tier):
    return [
        Sub("history", history(), check, 4000, 60000),
        Sub("huge", large_case(), large, 120, 2000),
        Sub("autoregressive", ar_case(), autoregressive, 400, 6000),
    ]
