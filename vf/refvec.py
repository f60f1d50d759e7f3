"""Sequential dynamic programs on float64 tensors, one item at a time.

For sizes where neither enumeration nor the scalar programs of refdp are
practical.  Gradients come from autograd, so marginals, entropy, cross-entropy
and KL follow from the log-partition alone.  Nothing here imports torch_struct;
the self test compares these programs with the enumeration oracle.
"""
import torch


def _lse(x, dim):
    return torch.logsumexp(x, dim)


def _max(x, dim):
    return torch.amax(x, dim)


def lc(phi, C, l, plus):
    a = torch.zeros(C, dtype=phi.dtype)
    for n in range(l - 1):
        a = plus(phi[n] + a[None, :], 1)
    return plus(a, 0)


def sm(phi, K, C, l, plus):
    beta = [torch.zeros(C, dtype=phi.dtype)]
    for n in range(1, l):
        opts = [phi[n - k, k] + beta[n - k][None, :] for k in range(1, min(K - 1, n) + 1)]
        beta.append(plus(torch.cat(opts, 1), 1))
    return plus(beta[l - 1], 0)


def dep(phi, L, l, multiroot, plus):
    s = plus(phi, -1) if L else phi
    zero = torch.zeros((), dtype=phi.dtype)
    # R[i][j - i]: i governs i..j to its right; Lf[j][j - i]: j governs i..j to its left
    R = [[zero] for _ in range(l)]
    Lf = [[zero] for _ in range(l)]
    IR = [[None] for _ in range(l)]
    IL = [[None] for _ in range(l)]
    for w in range(1, l):
        for i in range(l - w):
            j = i + w
            mid = plus(torch.stack([R[i][k - i] + Lf[j][j - k - 1] for k in range(i, j)]), 0)
            IR[i].append(mid + s[i, j])
            IL[j].append(mid + s[j, i])
        for i in range(l - w):
            j = i + w
            R[i].append(plus(torch.stack([IR[i][k - i] + R[k][j - k] for k in range(i + 1, j + 1)]), 0))
            Lf[j].append(plus(torch.stack([Lf[k][k - i] + IL[j][j - k] for k in range(i, j)]), 0))

    def sub(i, j):
        return plus(torch.stack([Lf[r][r - i] + R[r][j - r] + s[r, r] for r in range(i, j + 1)]), 0)

    if not multiroot:
        return sub(0, l - 1)
    pre = [zero]
    for j in range(l):
        pre.append(plus(torch.stack([pre[i] + sub(i, j) for i in range(j + 1)]), 0))
    return pre[l]


def tree(phi, NT, l, plus):
    s = plus(phi, -1)
    # A[i][w]: span starting at i; Z[j][w]: span ending at j, both of width w + 1
    A = [[s[i, i]] for i in range(l)]
    Z = [[s[i, i]] for i in range(l)]
    for w in range(1, l):
        new = []
        for i in range(l - w):
            j = i + w
            left = torch.stack(A[i])
            right = torch.stack(Z[j][::-1])
            new.append((i, j, plus(left + right, 0) + s[i, j]))
        for i, j, v in new:
            A[i].append(v)
            Z[j].append(v)
    return A[0][l - 1]


def cfg(terms, rules, roots, NT, T, l, plus):
    # symbols: NT nonterminals, then T preterminals
    ins = {(i, i): (NT, terms[i]) for i in range(l)}
    for w in range(1, l):
        for i in range(l - w):
            j = i + w
            opts = []
            for k in range(i, j):
                b0, vb = ins[i, k]
                c0, vc = ins[k + 1, j]
                r = rules[:, b0:b0 + len(vb), c0:c0 + len(vc)]
                opts.append((r + vb[None, :, None] + vc[None, None, :]).reshape(NT, -1))
            ins[i, j] = (0, plus(torch.cat(opts, 1), 1))
    return plus(ins[0, l - 1][1] + roots, 0)


def _run(kind, dims, phi, l, plus, split):
    if kind == "cfg":
        t, r, o = split(phi, dims)
        return cfg(t, r, o, dims[1], dims[2], l, plus)
    if kind == "lc":
        return lc(phi, dims[1], l, plus)
    if kind == "sm":
        return sm(phi, dims[1], dims[2], l, plus)
    if kind == "dep":
        return dep(phi, dims[1], l, bool(dims[2]), plus)
    if kind == "tree":
        return tree(phi, dims[1], l, plus)
    raise KeyError(kind)


class Item:
    """Exact quantities of one item.  phi: flat float64 array."""

    def __init__(self, kind, dims, shape, phi, l, split):
        self.args = (kind, dims, l, split)
        self.shape = shape
        self.x = torch.tensor(phi, dtype=torch.float64, requires_grad=True)
        self._z = None
        self._m = None

    def _go(self, x, plus):
        kind, dims, l, split = self.args
        return _run(kind, dims, x.reshape(self.shape), l, plus, split)

    @property
    def z(self):
        if self._z is None:
            self._z = self._go(self.x, _lse)
        return self._z

    @property
    def logZ(self):
        return float(self.z.detach())

    def grad_graph(self):
        "Marginals as a differentiable function of x."
        if self._m is None:
            if self.z.requires_grad:
                self._m = torch.autograd.grad(self.z, self.x, create_graph=True)[0]
            else:
                self._m = torch.zeros_like(self.x)
        return self._m

    @property
    def marg(self):
        return self.grad_graph().detach().numpy()

    @property
    def max(self):
        return float(self._go(self.x.detach(), _max))

    def best(self, phi):
        "Best score under other potentials (used to test membership)."
        return float(self._go(torch.tensor(phi, dtype=torch.float64), _max))

    @property
    def entropy(self):
        return float((self.z - (self.grad_graph() * self.x).sum()).detach())

    def cross_entropy(self, other):
        return float(other.logZ - (self.grad_graph().detach() * other.x.detach()).sum())

    def kl(self, other):
        return self.cross_entropy(other) - self.entropy
