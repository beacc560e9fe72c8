"""C21: Python estimators reject invalid input with ordinary exceptions and accept valid input."""
import warnings

import numpy as np
import scipy.sparse as sp

from pm import MODELS, NAMES, alpha_max, any_alpha, forms, model_kw, problem, rows, second_of, show
from vpy import Report, Viol

warnings.simplefilter("ignore")
nan, inf = float("nan"), float("inf")
NOT_NUM = ["1", None, [1.0], {}, 1j, "nan"]
BAD = {
    "alpha": [-1.0, -1e-300, -1e300, -inf, nan, np.float64(-0.5), np.float64(nan)] + NOT_NUM,
    "gamma": [0.5, 0.0, -1.0, -3.0, 1 - 1e-12, 0.999, nan, -inf, np.float64(0.2)] + NOT_NUM,
    "l1_ratio": [-0.1, -1e-12, 1 + 1e-12, 1.1, 2.0, -1.0, 100.0, nan, inf, -inf, np.float64(1.5)] + NOT_NUM,
    "tol": [-1.0, -1e-12, -1e-300, nan, -inf, 1, 0] + NOT_NUM,
    "K": [0, -1, -5, 1.5, 2.0, 5.0, nan, -10 ** 30, 10 ** 30, 0.0] + NOT_NUM,
    "p0": [0, -1, -10, 1.5, 10.0, nan, -10 ** 30, 10 ** 30, 0.0] + NOT_NUM,
    "max_iter": [-1, -50, 1.5, 50.0, nan, -10 ** 30, 10 ** 30, inf] + NOT_NUM,
    "max_epochs": [-1, -1000, 1.5, 1000.0, nan, -10 ** 30, 10 ** 30, inf] + NOT_NUM,
}


def must_raise(f, what):
    """True if f raised an ordinary exception; anything else that flies is a violation"""
    try:
        f()
    except Exception as e:
        return type(e).__name__
    except BaseException as e:
        raise Viol("panic", "%s: %s: %s" % (what, type(e).__name__, e))
    return None


def base(r, name):
    X, Y = problem(r, MODELS[name][1], nmax=15, pmax=12)
    kw = model_kw(name, any_alpha(r, alpha_max(X, Y)), second_of(r, name))
    opts = dict(max_iter=int(r.choice([50, 5, 1])), max_epochs=int(r.choice([1000, 30])), tol=float(r.choice([1e-9, 1e-4])),
                p0=int(r.choice([10, 1, 3])), use_accel=bool(r.integers(2)), K=int(r.choice([5, 1, 2, 7])), verbose=False)
    return X, Y, kw, opts


PAIRS = [(n, k, i) for n in NAMES for k in BAD for i in range(len(BAD[k]))
         if k not in ("gamma", "l1_ratio") or MODELS[n][2] == k]


def parameters(r, c):
    name, key, i = PAIRS[c.idx % len(PAIRS)]
    bad = BAD[key][i]
    if key == "gamma" and isinstance(bad, float) and bad == inf:
        return
    cls = MODELS[name][0]
    X, Y, kw, opts = base(r, name)
    ax = sp.csc_matrix(X) if r.integers(2) else X
    good = {**kw, **opts}
    what = "%s %s=%r" % (name, key, bad)
    # at construction
    box = []
    raised = must_raise(lambda: box.append(cls(**{**good, key: bad})), what + " in the constructor")
    if raised:
        c.count("refused by the constructor")
    else:
        raised = must_raise(lambda: box[0].fit(ax, Y), what + " in fit")
        if not raised:
            raise Viol("accepted:" + key, "%s given to the constructor fits: coef_=%r; %s" % (what, box[0].coef_, show(X, Y)))
        if box[0].coef_ is not None:
            raise Viol("coefficients:" + key, "%s: fit raised but coef_=%r" % (what, box[0].coef_))
        c.count("refused by fit")
    c.nontrivial(name, key, i, "ctor", raised)
    # assigned later: before a first fit, or on a fitted estimator
    e = cls(**good)
    fitted = r.integers(2)
    if fitted:
        e.fit(ax, Y)
    how = int(r.integers(2))

    def assign():
        if how:
            e.set_params(**{key: bad})
        else:
            setattr(e, key, bad)
        e.fit(ax, Y)
    before = e.coef_
    raised = must_raise(assign, what + " assigned")
    if not raised:
        raise Viol("accepted:" + key, "%s assigned after construction fits: coef_=%r; %s" % (what, e.coef_, show(X, Y)))
    if e.coef_ is not before and e.coef_ is not None:
        raise Viol("coefficients:" + key, "%s: fit raised but coef_ became %r" % (what, e.coef_))
    c.count("refused after assignment")
    c.nontrivial(name, key, i, "assigned", how, fitted, raised)
    # a refused value leaves the estimator usable
    if how:
        e.set_params(**{key: good[key]})
    else:
        setattr(e, key, good[key])
    e.fit(ax, Y)
    if not np.isfinite(e.coef_).all():
        raise Viol("after:" + key, "%s: refit with valid values gives %r" % (what, e.coef_))
    c.count("usable again with a valid value")
    c.sample("%s: %s" % (what, raised))


def put(A, r, v):
    A = np.array(A, dtype=float)
    A.flat[int(r.integers(A.size))] = v
    return A


def spoil_sparse(X, r, v):
    X = put(X, r, 1.0)
    S = getattr(sp, str(r.choice(["csc", "csr", "coo"])) + "_" + str(r.choice(["matrix", "array"])))(X)
    S.data[int(r.integers(S.nnz))] = v
    return S


def cut(A, k):
    return A[: A.shape[0] - k]


def longer(A, k):
    return np.concatenate([A] + [A[:1]] * k)


FAULTS = [
    ("NaN in X", "any", lambda X, Y, r: (put(X, r, nan), Y)),
    ("inf in X", "any", lambda X, Y, r: (put(X, r, inf), Y)),
    ("-inf in X", "any", lambda X, Y, r: (put(X, r, -inf), Y)),
    ("NaN in F-ordered X", "any", lambda X, Y, r: (np.asfortranarray(put(X, r, nan)), Y)),
    ("NaN in float32 X", "any", lambda X, Y, r: (put(X, r, nan).astype(np.float32), Y)),
    ("NaN in list X", "any", lambda X, Y, r: (put(X, r, nan).tolist(), Y)),
    ("NaN in sparse X", "any", lambda X, Y, r: (spoil_sparse(X, r, nan), Y)),
    ("inf in sparse X", "any", lambda X, Y, r: (spoil_sparse(X, r, inf), Y)),
    ("NaN in y", "both", lambda X, Y, r: (X, put(Y, r, nan))),
    ("inf in y", "both", lambda X, Y, r: (X, put(Y, r, inf))),
    ("-inf in y", "both", lambda X, Y, r: (X, put(Y, r, -inf))),
    ("NaN in float32 y", "both", lambda X, Y, r: (X, put(Y, r, nan).astype(np.float32))),
    ("X scalar", "any", lambda X, Y, r: (np.float64(1.0), Y)),
    ("X 1-d", "any", lambda X, Y, r: (X[:, 0], Y)),
    ("X 3-d", "any", lambda X, Y, r: (X[:, :, None], Y)),
    ("X None", "any", lambda X, Y, r: (None, Y)),
    ("X string", "any", lambda X, Y, r: ("data", Y)),
    ("X of strings", "any", lambda X, Y, r: (np.full(X.shape, "a"), Y)),
    ("X complex", "any", lambda X, Y, r: (X.astype(complex) + 1j, Y)),
    ("X ragged", "any", lambda X, Y, r: ([[1.0, 2.0], [1.0]], Y)),
    ("X without rows", "any", lambda X, Y, r: (X[:0], Y[:0])),
    ("X without columns", "any", lambda X, Y, r: (X[:, :0], Y)),
    ("sparse X without columns", "any", lambda X, Y, r: (sp.csc_matrix((X.shape[0], 0)), Y)),
    ("y None", "both", lambda X, Y, r: (X, None)),
    ("y scalar", "both", lambda X, Y, r: (X, 1.0)),
    ("y string", "both", lambda X, Y, r: (X, "y")),
    ("y of strings", "both", lambda X, Y, r: (X, np.full(Y.shape, "a"))),
    ("y complex", "both", lambda X, Y, r: (X, Y.astype(complex) + 1j)),
    ("y empty", "both", lambda X, Y, r: (X, Y[:0])),
    ("y 3-d", "any", lambda X, Y, r: (X, rows(Y)[:, :, None])),
    ("y with two columns", "single", lambda X, Y, r: (X, np.stack([Y, Y + 1], axis=1))),
    ("Y 1-d", "multi", lambda X, Y, r: (X, Y[:, 0])),
    ("Y 1-d list", "multi", lambda X, Y, r: (X, Y[:, 0].tolist())),
    ("Y without columns", "multi", lambda X, Y, r: (X, Y[:, :0])),
    ("y one too short", "both", lambda X, Y, r: (X, cut(Y, 1))),
    ("y one too long", "both", lambda X, Y, r: (X, longer(Y, 1))),
    ("y far too long", "both", lambda X, Y, r: (X, longer(Y, 40))),
    ("X too short", "both", lambda X, Y, r: (cut(X, 1), Y)),
    ("X too long", "both", lambda X, Y, r: (longer(X, 3), Y)),
    ("y transposed", "multi-wide", lambda X, Y, r: (X, Y.T)),
    ("X transposed", "both-wide", lambda X, Y, r: (X.T, Y)),
]
DPAIRS = [(n, i) for n in NAMES for i, f in enumerate(FAULTS)
          if not (f[1] == "single" and MODELS[n][1]) and not (f[1].startswith("multi") and not MODELS[n][1])]


def data(r, c):
    name, i = DPAIRS[c.idx % len(DPAIRS)]
    label, scope, f = FAULTS[i]
    X, Y, kw, opts = base(r, name)
    if X.shape[0] < 2:
        X, Y = np.concatenate([X, X + 1]), np.concatenate([Y, Y])
    if label == "y transposed" and Y.shape[0] == Y.shape[1]:
        return
    if label == "X transposed" and X.shape[0] == X.shape[1]:
        return
    bx, by = f(X, Y, r)
    if "X" not in label and r.random() < 0.5:
        bx = getattr(sp, str(r.choice(["csc", "csr"])) + "_matrix")(bx)
    if label in ("X too short", "X too long", "X transposed") and r.random() < 0.5:
        bx = sp.csc_matrix(bx)
    e = MODELS[name][0](**kw, **opts)
    fitted = r.integers(2)
    if fitted:
        e.fit(X, Y)
    before = e.coef_
    what = "%s fitted on data with: %s (X %s Y %s)" % (name, label, X.shape, Y.shape)
    raised = must_raise(lambda: e.fit(bx, by), what)
    if not raised:
        raise Viol("accepted-data:" + label, "%s: coef_=%r; %s" % (what, e.coef_, show(X, Y)))
    if e.coef_ is not before and e.coef_ is not None:
        raise Viol("coefficients-data:" + label, "%s: fit raised but coef_ became %r" % (what, e.coef_))
    c.count("malformed data refused")
    c.nontrivial(name, label, raised, sp.issparse(bx), fitted)
    e.fit(X, Y)
    c.count("usable again with valid data")
    c.sample("%s: %s" % (what, raised))


def accepted(r, c):
    """Every in-domain combination is accepted"""
    name = NAMES[c.idx % 6]
    multi, s = MODELS[name][1], MODELS[name][2]
    X, Y = problem(r, multi, nmax=12, pmax=12)
    k = r.integers(6)
    if k == 0:
        Y = np.zeros_like(Y)
    elif k == 1:
        X = np.zeros_like(X)
    elif k == 2:
        X = np.repeat(X[:, :1], X.shape[1], axis=1)
    amax = alpha_max(X, Y)
    kw = model_kw(name, r.choice([0.0, 1e-300, 1e-12, any_alpha(r, amax), amax, 10 * amax + 1, 1e300]), 1.0)
    if s == "gamma":
        kw[s] = float(r.choice([1.0, 1 + 1e-12, 3.0, 1e8, 1e300, inf]))
        if kw["alpha"] == 0.0 and kw[s] == inf:
            kw[s] = 2.0
    elif s:
        kw[s] = float(r.choice([0.0, 1e-300, 0.5, 1 - 1e-12, 1.0]))
    opts = dict(max_iter=int(r.choice([0, 1, 2, 50])), max_epochs=int(r.choice([0, 1, 2, 300])),
                tol=float(r.choice([0.0, 1e-300, 1e-12, 1e-6, 1.0, 1e300])), p0=int(r.choice([1, 2, 10, 10000])),
                use_accel=bool(r.integers(2)), K=int(r.choice([1, 2, 3, 5, 20, 60])), verbose=False)
    if r.random() < 0.3:
        kw = {a: np.float64(b) for a, b in kw.items()}
    ax, ay, form = sp.csc_matrix(X) if r.integers(2) else X, Y, "plain"
    if r.random() < 0.6:
        # any numeric type, memory order or container
        X, Y, ax, ay, form, _ = forms(r, X, Y)
        c.count("in another input form")
    what = "%s(%s) %s; %s" % (name, {**kw, **opts}, form, show(X, Y))
    try:
        e = MODELS[name][0](**kw, **opts)
        e.fit(ax, ay)
    except BaseException as x:
        raise Viol("refused:" + type(x).__name__, "%s: %s" % (what, x))
    want = (Y.shape[1], X.shape[1]) if multi else (X.shape[1],)
    if e.coef_.shape != want or not np.isfinite(e.coef_).all():
        raise Viol("accepted-but-bad", "coef_=%r; %s" % (e.coef_, what))
    c.count("in-domain combinations accepted")
    c.nontrivial(name, tuple(kw.values()), tuple(opts.values()), form)


rep = Report("C21", "every out-of-domain value of every hyperparameter of every estimator, at construction and assigned later, and "
             "every kind of malformed data on dense and sparse problems must raise an Exception and leave no coefficients; "
             "in-domain combinations at the edges of the domain must fit. Non-trivial: distinct (estimator, fault, route, "
             "exception) or accepted configurations")
rep.cases(1, len(PAIRS) * rep.n(2, 60), parameters)
rep.cases(2, len(DPAIRS) * rep.n(4, 120), data)
rep.cases(3, rep.n(3000, 100000), accepted)
rep.finish([("refused after assignment", 400), ("malformed data refused", 400), ("in-domain combinations accepted", 2000),
            ("in another input form", 1000)],
           ["domains as written in the docstrings: alpha >= 0, gamma >= 1, 0 <= l1_ratio <= 1, tol >= 0, K, p0 >= 1, "
            "max_iter, max_epochs >= 0"])
