"""C22: Python estimators follow the predictor protocol, over random histories of calls."""
import warnings

import numpy as np
import scipy.sparse as sp
from sklearn.base import clone

from pm import MODELS, NAMES, alpha_max, any_alpha, model_kw, problem, rows, second_of, show
from vpy import Report, Viol

warnings.simplefilter("ignore")


def config(r, name, amax, p):
    kw = model_kw(name, any_alpha(r, amax), second_of(r, name))
    kw.update(max_iter=int(r.choice([50, 3, 1, 20])), max_epochs=int(r.choice([1000, 7, 50])),
              tol=float(r.choice([1e-9, 1e-4])), p0=int(r.choice([10, 1, 3, p])), use_accel=bool(r.integers(2)),
              K=int(r.choice([5, 1, 2, 7])), verbose=False)
    return kw


def as_arg(r, X):
    k = r.integers(8)
    if k < 2:
        return np.ascontiguousarray(X)
    if k == 2:
        return np.asfortranarray(X)
    if k == 3:
        big = np.full((2 * X.shape[0], 3 * X.shape[1]), 9.0)
        big[::2, ::3] = X
        return big[::2, ::3]
    if k == 4:
        return X.astype(np.float32).astype(np.float64)[::-1]
    S = getattr(sp, ["csc", "csr", "coo"][k - 5] + "_" + str(r.choice(["matrix", "array"])))(X)
    if k == 5:
        for a, b in zip(S.indptr[:-1], S.indptr[1:]):
            S.indices[a:b], S.data[a:b] = S.indices[a:b][::-1].copy(), S.data[a:b][::-1].copy()
        S.has_sorted_indices = False
    return S


def parts(A):
    if sp.issparse(A) and A.format in ("lil", "dok"):
        return [A.toarray()]
    if sp.issparse(A) and A.format == "dia":
        return [A.data, A.offsets]
    if sp.issparse(A):
        if A.format == "coo":
            return [A.data, A.row, A.col]
        return [A.data, A.indices, A.indptr]
    return [A]


def photo(A):
    """everything a caller can see of an array, and of the buffer it is a view of"""
    out = []
    if sp.issparse(A) and A.format in ("lil", "dok"):
        return A.toarray().tobytes(), A.shape, A.format, A.nnz
    for v in parts(A):
        out.append((v.tobytes(), v.shape, v.strides, v.dtype.str, v.flags.writeable, v.__array_interface__["data"][0],
                    None if v.base is None or not isinstance(v.base, np.ndarray) else v.base.tobytes()))
    return out, getattr(A, "shape", None), getattr(A, "format", None)


def same(a, b):
    return a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def full(A):
    return A.toarray() if sp.issparse(A) else np.asarray(A)


class History:
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.name = NAMES[c.idx % 6]
        self.cls, self.multi, self.second = MODELS[self.name]
        self.log = []
        X, Y = self.fresh_data()
        self.cfg = config(r, self.name, alpha_max(X, Y), X.shape[1])
        self.e = self.cls(**self.cfg)
        self.data = None
        self.seen = None
        self.kept = []

    def fresh_data(self):
        return problem(self.r, self.multi, nmax=20, pmax=60 if self.r.random() < 0.15 else 15)

    def bad(self, sig, detail):
        raise Viol(self.name + ":" + sig, "%s; history %s; config %s; %s"
                   % (detail, self.log, self.cfg, show(*self.data) if self.data else "not fitted"))

    def keep(self, what, a):
        """an array handed to the user stays as it was handed out"""
        self.kept.append((what, a, a.tobytes(), len(self.log)))
        self.kept = self.kept[-8:]

    def check_kept(self):
        for what, a, b, when in self.kept:
            if a.tobytes() != b:
                self.bad("handed-out-array-changed", "%s of step %d changed to %r" % (what, when, a))
            self.c.count("kept arrays compared")

    def expect_params(self, e):
        got = e.get_params()
        if got != self.cfg:
            self.bad("get_params", "get_params() = %r" % got)
        for k, v in self.cfg.items():
            if getattr(e, k) != v:
                self.bad("attribute", "%s = %r" % (k, getattr(e, k)))

    def predict_unfitted(self, e, X):
        try:
            out = e.predict(as_arg(self.r, X))
        except Exception:
            self.c.count("predict refused before fit")
            return
        except BaseException as x:
            self.bad("predict-panic", repr(x))
        self.bad("predict-unfitted", "predict before fit returned %r" % (out,))

    def check_predict(self, e):
        p = self.data[0].shape[1]
        Xn = self.r.standard_normal((int(self.r.integers(1, 12)), p)) * (self.r.random((1, p)) < 0.8)
        if self.r.random() < 0.3:
            Xn = self.data[0]
        A = as_arg(self.r, Xn)
        if self.r.random() < 0.25:
            A = getattr(sp, str(self.r.choice(["lil", "dok", "dia", "bsr", "coo"])) + "_" + str(self.r.choice(["matrix", "array"])))(Xn)
            self.c.count("predictions on other sparse formats")
        if sp.issparse(A) and A.format == "coo" and A.shape[0] == 1:
            # scipy 1.13: coo_array of one row @ vector is a scalar, whatever the estimator does
            A = A.tocsr()
        before = photo(A)
        w = e.coef_.copy()
        try:
            out = e.predict(A)
        except BaseException as x:
            self.bad("predict-raised", "%r on %s" % (x, type(A)))
        F = full(A).astype(np.longdouble)
        want = F @ rows(e.coef_.T).astype(np.longdouble)
        scale = np.abs(F) @ np.abs(rows(e.coef_.T)) + 1e-300
        shape = (A.shape[0], self.data[1].shape[1]) if self.multi else (A.shape[0],)
        if not isinstance(out, np.ndarray) or out.shape != shape:
            self.bad("predict-shape", "predict gave %s %s, expected %s" % (type(out), getattr(out, "shape", None), shape))
        if not (np.abs(rows(out) - want) <= 1e-13 * F.shape[1] * scale).all():
            self.bad("predict-value", "predict %r, X coef %r" % (out, want))
        if photo(A) != before:
            self.bad("predict-writes", "predict changed the caller's X (%s)" % type(A))
        if not same(w, e.coef_):
            self.bad("predict-changes-coef", "coef_ %r, before %r" % (e.coef_, w))
        if self.r.random() < 0.3:
            # the result belongs to the caller
            out[...] = -77.0
            if not same(w, e.coef_) or photo(A) != before:
                self.bad("predict-aliases", "writing to the result of predict changed coef_ or X")
        else:
            self.keep("prediction", out)
        self.c.count("predictions compared")

    def do_fit(self):
        X, Y = self.fresh_data() if self.data is None or self.r.random() < 0.6 else self.data
        A = as_arg(self.r, X)
        X = np.array(full(A))
        B = as_arg(self.r, Y) if self.multi else Y.copy()
        if sp.issparse(B):
            B = Y.copy()
        if not sp.issparse(A) and self.r.random() < 0.1 and (not self.multi or X.shape[1] >= Y.shape[1]):
            # targets that are a view of the design matrix
            B = A[:, : Y.shape[1]] if self.multi else A[:, 0]
            self.c.count("targets inside X")
        if self.r.random() < 0.2:
            for v in parts(A) + [B]:
                v.flags.writeable = False
        Y = np.array(B)
        self.data = (X, Y)
        self.log.append("fit %s %s" % (type(A).__name__, X.shape))
        refit = self.e.coef_ is not None
        pa, pb = photo(A), photo(B)
        try:
            ret = self.e.fit(A, B)
        except BaseException as x:
            self.bad("fit-raised", repr(x))
        if ret is not self.e:
            self.bad("fit-return", "fit returned %r" % (ret,))
        if photo(A) != pa or photo(B) != pb:
            self.bad("fit-writes", "fit changed the caller's arrays (%s)" % type(A))
        self.expect_params(self.e)
        other = self.cls(**self.cfg).fit(A, B)
        if not same(other.coef_, self.e.coef_):
            self.bad("refit-differs", "%r, a fresh estimator gives %r" % (self.e.coef_, other.coef_))
        self.keep("coef_", self.e.coef_)
        self.keep("coef_ of another estimator", other.coef_)
        self.c.count("fits compared with a fresh estimator")
        if refit:
            self.c.count("refits compared with a fresh estimator")
        self.seen = self.e.coef_.copy()
        if self.seen.any():
            self.c.nontrivial(self.name, self.seen, type(A).__name__, refit)
        # the result does not depend on what the caller does with the arrays afterwards
        for v in parts(A)[:1] + [B]:
            if v.flags.writeable and self.r.random() < 0.5:
                v[...] = 1e3
                self.c.count("caller's arrays overwritten after fit")
        if not same(self.seen, self.e.coef_):
            self.bad("coef-aliases-input", "coef_ changed with the caller's array")

    def step(self):
        k = self.r.integers(9)
        if k < 3:
            return self.do_fit()
        if k == 3:
            self.log.append("predict")
            if self.data is None:
                return self.predict_unfitted(self.e, self.fresh_data()[0])
            return self.check_predict(self.e)
        if k == 4:
            X, Y = self.fresh_data()
            new = config(self.r, self.name, alpha_max(X, Y), 5)
            keys = [a for a in new if self.r.random() < 0.4]
            self.cfg.update({a: new[a] for a in keys})
            self.log.append("set_params %s" % keys)
            if self.e.set_params(**{a: new[a] for a in keys}) is not self.e:
                self.bad("set_params-return", "set_params does not return the estimator")
            self.c.count("set_params")
            return self.expect_params(self.e)
        if k == 5:
            self.log.append("clone")
            d = clone(self.e)
            if d is self.e or type(d) is not type(self.e):
                self.bad("clone", "clone gave %r" % (d,))
            self.expect_params(d)
            if getattr(d, "coef_", None) is not None:
                self.bad("clone-fitted", "a clone has coef_ %r" % (d.coef_,))
            self.predict_unfitted(d, self.fresh_data()[0])
            if self.seen is not None and not same(self.seen, self.e.coef_):
                self.bad("clone-changes", "cloning changed coef_")
            self.c.count("clones")
            # work goes on with the clone, half of the time; the original must not notice
            if self.data is not None and self.r.random() < 0.5:
                X, Y = self.fresh_data()
                d.fit(X, Y)
                d.set_params(alpha=d.alpha * 2)
                self.expect_params(self.e)
                if not same(self.seen, self.e.coef_):
                    self.bad("clone-shares", "fitting a clone changed the original")
            elif self.r.random() < 0.5:
                self.e, self.data, self.seen = d, None, None
            return
        if k == 6:
            self.log.append("params round trip")
            d = self.cls(**self.e.get_params())
            self.expect_params(d)
            self.c.count("parameter round trips")
            return
        if k == 7:
            X, Y = self.fresh_data()
            a = float(any_alpha(self.r, alpha_max(X, Y)))
            self.log.append("alpha =")
            self.e.alpha = a
            self.cfg["alpha"] = a
            return self.expect_params(self.e)
        self.log.append("unknown parameter")
        try:
            self.e.set_params(no_such=1)
        except ValueError:
            return self.expect_params(self.e)
        self.bad("unknown-parameter", "set_params(no_such=1) is accepted")


def history(r, c):
    h = History(r, c)
    h.expect_params(h.e)
    if r.random() < 0.5:
        h.predict_unfitted(h.e, h.fresh_data()[0])
    for _ in range(int(r.integers(3, 12))):
        h.step()
        h.check_kept()
        if h.seen is not None and not same(h.seen, h.e.coef_):
            h.bad("coef-changed", "coef_ changed without a fit")
    if h.data is not None:
        h.check_predict(h.e)
    c.count("histories")
    c.sample("%s %s" % (h.name, h.log))


rep = Report("C22", "random histories of fit, predict, set_params, assignment, clone and get_params on every estimator, with "
             "dense (orders, views, read-only) and sparse data, checked call by call against a shadow model. Non-trivial: "
             "distinct non-zero coefficients compared bit by bit with those of a fresh estimator")
rep.cases(1, rep.n(3000, 120000), history)
rep.finish([("predictions on other sparse formats", 300), ("fits compared with a fresh estimator", 3000), ("refits compared with a fresh estimator", 1500),
            ("predictions compared", 2000), ("predict refused before fit", 1000), ("clones", 1000), ("set_params", 1000),
            ("caller's arrays overwritten after fit", 1000), ("kept arrays compared", 10000)],
           ["fits are deterministic (C18), so equal calls give equal bits"])
