"""C20: Python fits solve the documented problem, from any input form, with every option."""
import os
import tempfile

import numpy as np
import scipy.sparse as sp

from pm import DEFAULTS, MODELS, NAMES, alpha_max, any_alpha, forms, kkt, model_kw, problem, ref_fit, rows, second_of, show
from vpy import Report, Viol

def options(r, p):
    return dict(max_iter=int(r.choice([50, 50, 20, 100])), max_epochs=int(r.choice([1000, 1000, 200, 50, 13])),
                tol=float(r.choice([1e-4, 1e-6, 1e-9, 1e-9])), p0=int(r.choice([10, 1, 2, p, p + 5])),
                use_accel=bool(r.random() < 0.8), K=int(r.choice([5, 5, 1, 2, 3, 8])))


def construct(r, name, kw, opts, verbose=False):
    """Every way a user hands over the configuration"""
    cls, _, s = MODELS[name]
    how = int(r.integers(4))
    if how == 0:
        return cls(**kw, **opts, verbose=verbose)
    if how == 1:
        pos = [kw["alpha"]] + ([kw[s]] if s else [])
        pos += [opts[k] for k in ("max_iter", "max_epochs", "tol", "p0", "use_accel", "K")]
        return cls(*pos, verbose)
    if how == 2:
        e = cls(**{**kw, "alpha": 1.0})
        e.set_params(alpha=kw["alpha"], verbose=verbose, **opts)
        return e
    e = cls(*kw.values())
    for k, v in list(kw.items()) + list(opts.items()) + [("verbose", verbose)]:
        setattr(e, k, v)
    return e


def fit(e, X, Y, what):
    try:
        e.fit(X, Y)
    except BaseException as x:
        raise Viol("fit-raised:" + type(x).__name__, "%s: %r" % (what, x))
    return e.coef_


def check_shape(name, w, X, Y, what):
    t = rows(Y).shape[1]
    want = (t, X.shape[1]) if MODELS[name][1] else (X.shape[1],)
    if not isinstance(w, np.ndarray) or w.shape != want or w.dtype != np.float64:
        raise Viol(name + ":shape", "coef_ %s %s, expected %s; %s" % (type(w), getattr(w, "shape", None), want, what))
    if not np.isfinite(w).all():
        raise Viol(name + ":non-finite", "%r; %s" % (w, what))


def optimal(r, c, well):
    name = NAMES[c.idx % 6]
    X, Y = problem(r, MODELS[name][1], well=well)
    X, Y, ax, ay, form, is_sp = forms(r, X, Y)
    amax = alpha_max(X, Y)
    second = second_of(r, name)
    alpha = any_alpha(r, amax)
    if well and MODELS[name][2] == "gamma":
        lam = np.linalg.eigvalsh(X.T @ X / X.shape[0])[0]
        if lam < 1e-3 * np.trace(X.T @ X) / X.size:
            return
        second = max(1.0, float(r.uniform(1.3, 6) / lam))
    elif well and np.linalg.cond(X) > 30:
        return
    if well:
        alpha = max(amax, 1e-6) * 10 ** r.uniform(-2, -0.05)
    kw, opts = model_kw(name, alpha, second), options(r, X.shape[1])
    if well:
        opts.update(max_iter=50, max_epochs=1000, tol=float(r.choice([1e-4, 1e-6, 1e-8])))
        opts["tol"] *= max(1.0, amax)
    what = "%s(%s) %s; %s; %s" % (name, {**kw, **opts}, X.shape, form, show(X, Y))
    w = fit(construct(r, name, kw, opts), ax, ay, what)
    check_shape(name, w, X, Y, what)
    w2 = fit(construct(r, name, kw, {**opts, "max_iter": opts["max_iter"] + 1}), ax, ay, what)
    stopped = np.array_equal(w.view(np.uint64) if w.flags.c_contiguous else w, w2.view(np.uint64) if w2.flags.c_contiguous else w2)
    exc, vmax = kkt(name, kw["alpha"], second, X, Y, rows(w.T) if w.ndim == 2 else w)
    bad = not exc <= opts["tol"] * (1 + 1e-6)
    c.count("fits", 2)
    c.count("form " + form.split()[1] if not is_sp else "form sparse " + form.split()[1].split("-")[0])
    if stopped and bad:
        raise Viol(name + ":not-optimal", "stopped with violation %g > tol %g; coef %r; %s" % (vmax, opts["tol"], w, what))
    if well and bad:
        raise Viol(name + ":not-converged", "violation %g > tol %g; coef %r; %s" % (vmax, opts["tol"], w, what))
    if well:
        c.count("well-conditioned solved")
    if stopped:
        c.count("stopped by itself")
        if w.any():
            c.count("stopped, non-zero")
            c.count("model " + name)
            c.nontrivial(name, w, form)
    c.sample("%s %s %s %s stopped=%s violation=%.2e" % (name, X.shape, kw, form, stopped, vmax))


def close(a, b):
    return a is not None and b is not None and a.shape == b.shape and np.linalg.norm(a - b) <= 1e-7 * max(np.linalg.norm(b), 1e-12)


def forwarded(r, c):
    """Under tight budgets every option leaves its mark on the coefficients"""
    name = NAMES[c.idx % 6]
    multi, s = MODELS[name][1], MODELS[name][2]
    X, Y = problem(r, multi)
    amax = alpha_max(X, Y)
    kw = model_kw(name, any_alpha(r, amax), second_of(r, name))
    opts = options(r, X.shape[1])
    if r.random() < 0.75:
        opts["max_iter"] = int(r.choice([0, 1, 1, 2, 3, 4]))
        opts["max_epochs"] = int(r.choice([0, 1, 2, 6, 7, 11, 13, 30]))
    if r.random() < 0.3:
        opts["tol"] = float(10 ** r.uniform(-6, -1))
    elif r.random() < 0.2:
        opts["tol"] = float(r.choice([0.0, 10 ** r.uniform(-16, -12)]))
    far = int(r.integers(12))
    if far == 0:
        # a working set of many features
        X, Y = problem(r, multi, nmax=40, pmax=250)
        kw = model_kw(name, any_alpha(r, alpha_max(X, Y)), second_of(r, name))
        opts.update(p0=int(r.integers(20, 260)), max_epochs=int(r.choice([1, 2, 7])), max_iter=int(r.choice([1, 2, 3])))
    elif far == 1:
        opts.update(K=int(r.integers(8, 60)), max_epochs=int(r.integers(60, 200)), use_accel=True)
    elif far == 2:
        # long runs of slow passes, many of them or many outer iterations
        n, p = 12, int(r.integers(3, 8))
        X = r.standard_normal((n, 1)) + 10 ** r.uniform(-2.5, -1) * r.standard_normal((n, p))
        Y = X @ r.standard_normal((p, 2 if multi else 1)) + 0.1 * r.standard_normal((n, 2 if multi else 1))
        Y = Y if multi else Y[:, 0]
        kw = model_kw(name, alpha_max(X, Y) * 10 ** r.uniform(-5, -3), second_of(r, name))
        opts.update(tol=0.0, use_accel=False, p0=p)
        opts.update(*[dict(max_iter=1, max_epochs=int(r.integers(1000, 8000))), dict(max_iter=int(r.integers(50, 400)), max_epochs=11)][int(r.integers(2)):][:1])
    if r.random() < 0.15:
        # targets, strengths and tolerances in another unit
        unit = 2.0 ** int(r.integers(-40, 30))
        Y = Y * unit
        kw["alpha"] *= unit
        opts["tol"] *= unit
        c.count("forwarded in another unit")
    is_sp = r.random() < 0.4
    what = "%s(%s) sparse=%s %s" % (name, {**kw, **opts}, is_sp, show(X, Y))
    w = fit(construct(r, name, kw, opts), sp.csc_matrix(X) if is_sp else np.asfortranarray(X), Y, what)
    check_shape(name, w, X, Y, what)
    W = w.T if multi else w[:, None]
    layouts = ["S"] if is_sp else ["F", "C"]
    want = [ref_fit(name, kw, opts, X, Y, k) for k in layouts]
    if not any(close(W, v) for v in want):
        raise Viol(name + ":differs-from-rust", "Python %r, Rust %r; %s" % (W, want, what))
    c.count("compared with the Rust estimators")
    if W.any():
        c.nontrivial(name, W)
    else:
        return
    # non-vacuity: would a lost option have been seen?
    d = dict(DEFAULTS)
    for k, v in d.items():
        if opts[k] != v and not close(W, ref_fit(name, kw, {**opts, k: v}, X, Y, layouts[0])):
            c.count("options whose loss would show: " + k)
    if s:
        v = {"gamma": 3.0, "l1_ratio": 0.5}[s]
        if kw[s] != v and not close(W, ref_fit(name, {**kw, s: v}, opts, X, Y, layouts[0])):
            c.count("options whose loss would show: " + s)


def verbosity(r, c):
    name = NAMES[c.idx % 6]
    X, Y = problem(r, MODELS[name][1], well=True)
    kw = model_kw(name, 0.3 * alpha_max(X, Y), second_of(r, name))
    opts = dict(DEFAULTS)
    is_sp = r.random() < 0.4
    ax = sp.csc_matrix(X) if is_sp else X
    coefs = []
    for v in (True, False, None):
        e = construct(r, name, kw, opts, v) if v is not None else MODELS[name][0](**kw)
        what = "%s verbose=%s sparse=%s" % (name, v, is_sp)
        with tempfile.TemporaryFile() as f:
            keep = [os.dup(1), os.dup(2)]
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            try:
                coefs.append(fit(e, ax, Y, what))
            finally:
                os.dup2(keep[0], 1)
                os.dup2(keep[1], 2)
                os.close(keep[0])
                os.close(keep[1])
            size = f.seek(0, 2)
        # the documented default of verbose is True
        if (size > 0) != (v is not False):
            raise Viol(name + ":verbose", "%d bytes printed; %s" % (size, what))
        c.count("verbose fits observed")
    if not np.array_equal(coefs[0], coefs[1]):
        raise Viol(name + ":verbose-changes-result", "%r %r" % (coefs[0], coefs[1]))


rep = Report("C20", "six estimators x random data in every input form (dense dtypes, orders, strides, lists, sparse formats) x "
             "options, passed by keyword, position, set_params or assignment; a fit that stops by itself meets the "
             "first-order conditions of the documented objective; tight-budget fits equal the Rust estimators. "
             "Non-trivial: distinct non-zero coefficients")
rep.cases(1, rep.n(3600, 120000), lambda r, c: optimal(r, c, False))
rep.cases(2, rep.n(1200, 40000), lambda r, c: optimal(r, c, True))
rep.cases(3, rep.n(2400, 80000), forwarded)
rep.cases(4, rep.n(60, 1200), verbosity)
rep.finish([("stopped, non-zero", 500), ("well-conditioned solved", 200), ("compared with the Rust estimators", 1000),
            ("verbose fits observed", 100)]
           + [("options whose loss would show: " + k, 20) for k in list(DEFAULTS) + ["gamma", "l1_ratio"]],
           ["first-order conditions recomputed in long double", "rounding slack 4e-12 x gradient scale"])
