"""Models, data and the reference optimality conditions shared by the Python checks."""
import numpy as np
import scipy.sparse as sp

from sparseglm import estimators as est
from vpy import Ref, hexf

# name -> (class, multi-task, second hyperparameter)
MODELS = {
    "Lasso": (est.Lasso, False, None),
    "ElasticNet": (est.ElasticNet, False, "l1_ratio"),
    "MCPRegressor": (est.MCPRegressor, False, "gamma"),
    "MultiTaskLasso": (est.MultiTaskLasso, True, None),
    "MultiTaskElasticNet": (est.MultiTaskElasticNet, True, "l1_ratio"),
    "BlockMCPRegressor": (est.BlockMCPRegressor, True, "gamma"),
}
NAMES = list(MODELS)
DEFAULTS = dict(max_iter=50, max_epochs=1000, tol=1e-9, p0=10, use_accel=True, K=5)


def rows(a):
    """coefficients as p x t"""
    return a[:, None] if a.ndim == 1 else a


def model_kw(name, alpha, second):
    kw = {"alpha": float(alpha)}
    s = MODELS[name][2]
    if s:
        kw[s] = float(second)
    return kw


def second_of(r, name):
    s = MODELS[name][2]
    if s == "l1_ratio":
        return float(r.choice([0.0, 0.1, 0.5, 0.9, 1.0, r.random()]))
    return float(r.choice([1.0, 1.5, 3.0, 10.0, 1e3, np.inf]))


def alpha_max(X, Y):
    g = X.T @ rows(Y) / X.shape[0]
    return float(np.sqrt((g ** 2).sum(axis=1)).max()) if g.size else 0.0


def any_alpha(r, amax):
    amax = amax if amax > 0 else 1.0
    k = r.integers(8)
    if k == 0:
        return amax * r.uniform(0.9, 1.2)
    if k == 1:
        return amax * 0.5
    if k == 2:
        return amax * 10 ** r.uniform(-4, -2)
    return amax * 10 ** r.uniform(-2, -0.05)


def problem(r, multi, well=False, nmax=30, pmax=30):
    n, p = int(r.integers(1, nmax + 1)), int(r.integers(1, pmax + 1))
    t = int(r.integers(1, 5)) if multi else 1
    kind = r.integers(6)
    if well:
        p = int(r.integers(2, 13))
        n = 3 * p + int(r.integers(0, 20))
        kind = 0
    X = r.standard_normal((n, p))
    if kind == 1:
        X += r.uniform(-3, 3)
    elif kind == 2:
        X *= r.random((n, p)) < 0.3
    elif kind == 3:
        X *= 10 ** r.uniform(-1.5, 1.5, size=p)
    elif kind == 4 and p > 1:
        for j in range(1, p):
            X[:, j] = 0.9 * X[:, j - 1] + 0.45 * X[:, j]
    elif kind == 5:
        X[:, r.random(p) < 0.3] = 0.0
    w = r.standard_normal((p, t)) * (r.random((p, 1)) < 0.4)
    Y = X @ w + r.uniform(0, 1) * r.standard_normal((n, t))
    return X, (Y if multi else Y[:, 0])


def kkt(name, alpha, second, X, Y, W):
    """(largest violation beyond its rounding slack, largest violation); long double sums"""
    ld = np.longdouble
    X, Y, W = np.asarray(X, ld), rows(np.asarray(Y, ld)), rows(np.asarray(W, ld))
    n = X.shape[0]
    G = X.T @ (X @ W - Y) / n
    nw = np.sqrt((W ** 2).sum(axis=1))
    ng = np.sqrt((G ** 2).sum(axis=1))
    s = MODELS[name][2]
    if s is None:
        thr, c = alpha, np.full_like(nw, alpha)
    elif s == "l1_ratio":
        thr, c = alpha * second, alpha * (second + (1 - second) * nw)
    else:
        thr = alpha
        c = np.where(nw < alpha * second, alpha - nw / second, 0.0)
    unit = np.where(nw[:, None] > 0, W / np.where(nw > 0, nw, 1)[:, None], 0)
    on = np.sqrt(((G + c[:, None] * unit) ** 2).sum(axis=1))
    viol = np.where(nw > 0, on, np.maximum(ng - thr, 0))
    scale = np.abs(X).T @ (np.abs(Y).max(axis=1) + np.abs(X) @ np.abs(W).max(axis=1)) * np.sqrt(Y.shape[1]) / n
    slack = 4e-12 * (scale + alpha)
    return float((viol - slack).max()), float(viol.max())


def ref_fit(name, kw, opts, X, Y, layout):
    Y2 = rows(Y)
    s = MODELS[name][2]
    head = [name, layout, X.shape[0], X.shape[1], Y2.shape[1], hexf(kw["alpha"]),
            hexf(kw[s] if s else 0.0), opts["max_iter"], opts["max_epochs"], opts["p0"], hexf(opts["tol"]),
            opts["K"], int(opts["use_accel"])]
    w = Ref.ask(head, [X, Y2])
    return None if w is None else w.reshape(X.shape[1], Y2.shape[1])


def ref_amax(X, Y, layout):
    Y2 = rows(Y)
    w = Ref.ask(["amax", layout, X.shape[0], X.shape[1], Y2.shape[1]], [X, Y2])
    return None if w is None else float(w[0])


def show(X, Y):
    X, Y = np.asarray(X), np.asarray(Y)
    if X.size > 1200:
        return "X %s Y %s" % (X.shape, Y.shape)
    with np.printoptions(precision=17, threshold=10 ** 6, linewidth=10 ** 6):
        return "X=%r Y=%r" % (X, Y)


DT = ["float64"] * 4 + ["float32", "float16", "longdouble", "int64", "int32", "uint8", "bool", ">f8", ">f4"]
SPARSE = ["csc", "csr", "coo", "lil", "dok", "bsr", "dia"]


def representable(r, A, dt):
    """A rounded so that it is exact in dt; the values as float64"""
    if dt in ("int64", "int32"):
        A = np.rint(A * 3)
    elif dt == "uint8":
        A = np.rint(np.abs(A) * 5) % 200
    elif dt == "bool":
        A = (A > 0.3).astype(float)
    elif dt == "float16":
        A = np.clip(A, -1000, 1000)
    B = A.astype(dt)
    return B.astype(np.float64), B


def dense_form(r, B):
    f = str(r.choice(["C", "F", "list", "tuple", "strided", "rev", "readonly", "readonlyF", "slice", "C", "F"]))
    if f == "C":
        out = np.ascontiguousarray(B)
    elif f == "F":
        out = np.asfortranarray(B)
    elif f == "list":
        out = B.tolist()
    elif f == "tuple":
        out = tuple(tuple(v) for v in B.tolist()) if B.ndim == 2 else tuple(B.tolist())
    elif f == "strided":
        big = np.full([2 * d + 1 for d in B.shape], 77, dtype=B.dtype)
        out = big[tuple(slice(0, 2 * d, 2) for d in B.shape)]
        out[...] = B
    elif f == "slice":
        big = np.full([d + 3 for d in B.shape], 55, dtype=B.dtype, order="F")
        out = big[tuple(slice(1, d + 1) for d in B.shape)]
        out[...] = B
    elif f == "rev":
        sl = tuple(slice(None, None, -1) for _ in B.shape)
        out = np.ascontiguousarray(B[sl])[sl]
    else:
        out = np.array(B, order="F" if f == "readonlyF" else "C")
        out.flags.writeable = False
    return f, out


def sparse_form(r, B):
    f = str(r.choice(SPARSE))
    if B.dtype == np.float16 or B.dtype == np.longdouble or B.dtype.byteorder == ">":
        B = B.astype(np.float64)
    kind = "array" if r.random() < 0.4 else "matrix"
    S = sp.coo_matrix(B)
    if f in ("csc", "csr"):
        S = getattr(sp, f + "_matrix")(S)
        k = r.integers(4)
        if k == 1 and S.nnz:
            # row indices in any order inside a column
            for a, b in zip(S.indptr[:-1], S.indptr[1:]):
                q = a + r.permutation(b - a)
                S.indices[a:b], S.data[a:b] = S.indices[q], S.data[q]
            S.has_sorted_indices = False
            f += "-unsorted"
        elif k == 2:
            # stored zeros
            m = np.asarray(B != 0) | (r.random(B.shape) < 0.2)
            i, j = np.nonzero(m)
            T = sp.coo_matrix((B[i, j], (i, j)), shape=B.shape)
            S = T.tocsc() if f == "csc" else T.tocsr()
            f += "-zeros"
        elif k == 3 and B.dtype.kind == "f":
            # entries stored as sums of several ones
            S.data, S.indices, S.indptr = np.repeat(S.data / 2, 2), np.repeat(S.indices, 2), S.indptr * 2
            S.has_canonical_format = False
            f += "-dups"
        if kind == "array":
            cls = sp.csc_array if f.startswith("csc") else sp.csr_array
            S = cls((S.data, S.indices, S.indptr), shape=S.shape)
    else:
        cls = getattr(sp, f + "_" + kind)
        if f == "coo":
            q = r.permutation(S.nnz)
            if B.dtype.kind == "f" and r.random() < 0.3:
                q = np.repeat(q, 2)
                S.data = S.data / 2
            S = cls((S.data[q], (S.row[q], S.col[q])), shape=S.shape)
        else:
            S = cls(S)
    return f + "-" + kind, S


def forms(r, X, Y):
    """The same numbers in some input form: (true X, true Y, X argument, Y argument, description, sparse?)"""
    dx, dy = str(r.choice(DT)), str(r.choice(DT))
    tx, bx = representable(r, X, dx)
    ty, by = representable(r, Y, dy)
    is_sp = r.random() < 0.4
    fx, ax = sparse_form(r, bx) if is_sp else dense_form(r, bx)
    fy, ay = dense_form(r, by)
    if isinstance(ax, (list, tuple)):
        tx = np.asarray(ax, dtype=np.float64).reshape(tx.shape)
    return tx, ty, ax, ay, "X %s %s, y %s %s" % (fx, dx, fy, dy), is_sp
