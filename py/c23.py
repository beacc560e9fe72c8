"""C23: make_correlated_data, compute_alpha_max and sum_squared honour their documentation."""
import warnings

import numpy as np
import scipy.sparse as sp

from pm import problem, ref_amax, rows, show
from sparseglm import estimators as est
from sparseglm.utils import compute_alpha_max, make_correlated_data, sum_squared
from vpy import Report, Viol

warnings.simplefilter("ignore")
nan, inf = float("nan"), float("inf")


def same(a, b):
    return all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def generate(r, c):
    n, p, t = int(r.integers(1, 60)), int(r.integers(1, 60)), int(r.choice([1, 1, 2, 3, 7]))
    kw = dict(n_samples=n, n_features=p, n_tasks=t, corr=float(r.choice([0.0, 0.0, 0.3, 0.6, 0.95, 1 - 1e-9, r.random()])),
              snr=float(r.choice([inf, 1e-6, 0.1, 1.0, 3.0, 100.0, 1e6])),
              density=float(r.choice([0.05, 0.2, 0.5, 1.0, 1.0 / p, r.uniform(0.01, 1)])))
    # documented seeds: any int, zero and the largest included, also as a numpy integer
    seed = int(r.integers(2 ** 31)) if r.random() < 0.7 else int(r.choice([0, 0, 1, 2, 42, 2 ** 31 - 1, 2 ** 32 - 2]))
    if seed < 2 ** 31 and r.random() < 0.2:
        seed = np.int64(seed)
    given = None
    if r.random() < 0.35:
        given = r.standard_normal((p, t)) * (r.random((p, 1)) < 0.6)
        if t == 1 and r.random() < 0.7:
            given = given[:, 0]
        if r.random() < 0.2:
            given = np.asfortranarray(given)
        kw["w_true"] = given
    dropped = []
    for k, d in (("n_tasks", 1), ("corr", 0.6), ("snr", 3), ("density", 0.2), ("n_samples", 100), ("n_features", 50)):
        # documented defaults
        if r.random() < 0.08 and not (given is not None and k in ("n_features", "n_tasks")):
            del kw[k]
            dropped.append(k)
    n, p, t = kw.get("n_samples", 100), kw.get("n_features", 50), kw.get("n_tasks", 1)
    snr, density = kw.get("snr", 3), kw.get("density", 0.2)
    what = "make_correlated_data(%s, random_state=%d)" % ({k: v for k, v in kw.items() if k != "w_true"}, seed)
    keep = None if given is None else given.copy()
    state = np.random.get_state()
    try:
        X, Y, w = make_correlated_data(random_state=seed, **kw)
    except BaseException as e:
        raise Viol("raised:" + type(e).__name__, "%s with w_true %s: %s" % (what, None if given is None else given.shape, e))
    after = np.random.get_state()
    if state[2] != after[2] or not np.array_equal(state[1], after[1]):
        raise Viol("global-state", what + " with an int seed advanced numpy's global generator")
    shapes = (X.shape, Y.shape, w.shape)
    want = ((n, p), (n,) if t == 1 else (n, t), (p,) if t == 1 else (p, t))
    if shapes != want:
        raise Viol("shapes", "%s: %s, expected %s" % (what, shapes, want))
    if not all(np.isfinite(a).all() for a in (X, Y, w)):
        raise Viol("non-finite", what)
    if given is not None:
        if given.shape != keep.shape or given.tobytes() != keep.tobytes():
            raise Viol("w_true-modified", what)
        if not np.array_equal(rows(w), rows(keep)):
            raise Viol("w_true-ignored", "%s: given %r returned %r" % (what, keep, w))
        c.count("w_true given, %d-d" % given.ndim)
    else:
        nnz = int((rows(w) != 0).any(axis=1).sum())
        if abs(nnz - density * p) >= 1 or int((rows(w) != 0).sum()) != nnz * t:
            raise Viol("density", "%s: %d non-zero rows, %g asked for" % (what, nnz, density * p))
        c.count("supports counted")
    S = X.astype(np.longdouble) @ rows(w).astype(np.longdouble)
    E = rows(Y) - S
    ns, ne = float(np.sqrt((S ** 2).sum())), float(np.sqrt((E ** 2).sum()))
    mag = float(np.sqrt(((np.abs(X) @ np.abs(rows(w))) ** 2).sum())) * p
    if snr == inf:
        if ne > 1e-15 * mag:
            raise Viol("noise-at-infinite-snr", "%s: noise norm %g, signal norm %g" % (what, ne, ns))
        c.count("noiseless data")
    elif ns > 0:
        if abs(ne * snr - ns) > 1e-11 * ns + 1e-15 * snr * mag:
            raise Viol("snr", "%s: ||Xw||/||eps|| = %r" % (what, ns / ne))
        c.count("signal-to-noise ratios measured")
    c.nontrivial(X, Y)
    again = make_correlated_data(random_state=seed, **kw)
    if not same((X, Y, w), again):
        raise Viol("not-reproducible", what + " differs on a second call")
    rs = make_correlated_data(random_state=np.random.RandomState(seed), **kw)
    if not same((X, Y, w), rs):
        raise Viol("RandomState", what + " differs between the seed and RandomState(seed)")
    other = make_correlated_data(random_state=seed + 1, **kw)
    if np.array_equal(X, other[0]):
        raise Viol("seed-ignored", what + " does not depend on the seed")
    make_correlated_data(**kw)
    c.count("reproduced")
    c.sample("%s shapes %s" % (what, shapes))


def structure(r, c):
    """Mean 0, variance 1, correlation rho^|i-j|: sample moments within 8 standard errors"""
    n, p = 20000, int(r.integers(2, 9))
    corr = float(r.choice([0.0, 0.2, 0.5, 0.6, 0.8, 0.95]))
    seed = int(r.integers(2 ** 31))
    X, Y, w = make_correlated_data(n, p, corr=corr, random_state=seed)
    what = "n=%d p=%d corr=%g random_state=%d" % (n, p, corr, seed)
    m = X.mean(axis=0)
    if (np.abs(m) > 8 / np.sqrt(n)).any():
        raise Viol("mean", "%s: means %r" % (what, m))
    M = X.T @ X / n
    R = corr ** np.abs(np.subtract.outer(np.arange(p), np.arange(p))) if corr else np.eye(p)
    se = np.sqrt((1 + R ** 2) / n)
    if (np.abs(M - R) > 8 * se).any():
        raise Viol("covariance", "%s: second moments %r, documented %r" % (what, M, R))
    c.count("covariances measured")
    c.nontrivial("cov", X[:5])
    # along many features: neighbours and far ones, wherever they stand
    q, d = int(r.integers(60, 400)), int(r.choice([1, 1, 2, 3]))
    N = 3000
    Z = make_correlated_data(N, q, corr=corr, random_state=seed)[0]
    m = (Z[:, d:] * Z[:, :-d]).mean(axis=0)
    if (np.abs(m - corr ** d) > 8 * np.sqrt((1 + corr ** (2 * d)) / N)).any():
        raise Viol("covariance-wide", "n=%d p=%d corr=%g random_state=%d: products of features %d apart average %r" % (N, q, corr, seed, d, m))
    v = (Z ** 2).mean(axis=0)
    if (np.abs(v - 1) > 8 * np.sqrt(2 / N)).any():
        raise Viol("variance-wide", "n=%d p=%d corr=%g random_state=%d: second moments %r" % (N, q, corr, seed, v))
    # non-zero coefficients are standard Gaussian, rows of the support are spread over all features
    p = 4000
    t = int(r.choice([1, 2, 3, 5, 8]))
    X, Y, w = make_correlated_data(3, p, corr=corr, density=0.5, n_tasks=t, random_state=seed)
    w = rows(w)
    v = w[(w != 0).any(axis=1)]
    G = v.T @ v / len(v)
    if (np.abs(G - np.eye(t)) > 8 * np.sqrt((1 + np.eye(t)) / len(v))).any():
        raise Viol("w_true-tasks", "%s: second moments of the non-zero rows %r" % (what, G))
    if abs(v.mean()) > 8 / np.sqrt(v.size) or abs(v.var() - 1) > 8 * np.sqrt(2.0 / v.size):
        raise Viol("w_true-law", "%s: mean %g variance %g" % (what, v.mean(), v.var()))
    half = int((w[: p // 2] != 0).any(axis=1).sum())
    if abs(half - p // 4) > 8 * np.sqrt(p) / 4:
        raise Viol("support-law", "%s: %d of %d non-zero rows in the first half" % (what, half, p // 2))
    c.count("coefficient laws measured")


BADOPT = [{"corr": v} for v in (-0.1, -1e-12, 1.0, 1.0 + 1e-12, 1.5, -1.0, inf, -inf, nan)]
BADOPT += [{"density": v} for v in (0.0, -0.1, -1e-12, 1 + 1e-12, 2.0, inf, -inf, nan)]


def refusal(r, c):
    bad = BADOPT[c.idx % len(BADOPT)]
    kw = dict(n_samples=int(r.integers(1, 30)), n_features=int(r.integers(1, 30)), n_tasks=int(r.choice([1, 3])),
              random_state=int(r.integers(1000)))
    if r.integers(2):
        kw["w_true"] = r.standard_normal(kw["n_features"]) if kw["n_tasks"] == 1 else r.standard_normal((kw["n_features"], 3))
    try:
        make_correlated_data(**{**kw, **bad})
    except ValueError:
        c.count("options refused")
        c.nontrivial("bad", bad, sorted(kw))
        return
    except BaseException as e:
        raise Viol("refusal-type", "%s raised %s" % (bad, type(e).__name__))
    raise Viol("accepted", "make_correlated_data accepts %s" % bad)


def threshold(r, c):
    multi = bool(r.integers(2))
    X, Y = problem(r, multi, nmax=40, pmax=40)
    forms = {"C": np.ascontiguousarray(X), "F": np.asfortranarray(X), "csc": sp.csc_matrix(X), "csr": sp.csr_matrix(X),
             "csc_array": sp.csc_array(X), "float32": X.astype(np.float32)}
    G = X.astype(np.longdouble).T @ rows(Y).astype(np.longdouble) / X.shape[0]
    want = float(np.sqrt((G ** 2).sum(axis=1)).max())
    scale = float((np.abs(X).T @ np.abs(rows(Y)).sum(axis=1)).max()) / X.shape[0]
    for f, A in forms.items():
        for Z in (Y, np.asfortranarray(Y)):
            try:
                got = compute_alpha_max(A, Z)
            except BaseException as e:
                raise Viol("alpha_max-raised", "%s: %r; %s" % (f, e, show(X, Y)))
            tol = 1e-13 * scale if f != "float32" else 1e-5 * scale
            if np.ndim(got) != 0 or not abs(float(got) - want) <= tol:
                raise Viol("alpha_max", "%s: %r, expected %r; %s" % (f, got, want, show(X, Y)))
            c.count("thresholds compared")
    for lay in ["C", "F"] + ([] if multi else ["S"]):
        rust = ref_amax(X, Y, lay)
        if rust is None or abs(rust - float(compute_alpha_max(X, Y))) > 2e-13 * scale:
            raise Viol("alpha_max-rust", "Rust %r, Python %r; %s" % (rust, compute_alpha_max(X, Y), show(X, Y)))
        c.count("thresholds compared with Rust")
    if want > 0:
        c.nontrivial("amax", X, Y)
        a = float(compute_alpha_max(X, Y))
        cls = est.MultiTaskLasso if multi else est.Lasso
        if cls(a * (1 + 1e-8), verbose=False).fit(X, Y).coef_.any():
            raise Viol("alpha_max-not-enough", "non-zero coefficients above alpha_max; %s" % show(X, Y))
        if not cls(a * 0.95, verbose=False, tol=1e-12 * a).fit(X, Y).coef_.any():
            raise Viol("alpha_max-too-large", "zero coefficients below alpha_max; %s" % show(X, Y))
        c.count("fits around the threshold", 2)
    for A in (X, np.asfortranarray(X), X[::2], X[:, ::-1], X[:, 0], rows(Y)):
        v, wv = sum_squared(A), float((A.astype(np.longdouble) ** 2).sum())
        if np.ndim(v) != 0 or abs(float(v) - wv) > 1e-12 * wv:
            raise Viol("sum_squared", "%r, expected %r" % (v, wv))
        c.count("sums of squares compared")


rep = Report("C23", "random options of make_correlated_data (given and simulated coefficients, all ratios and densities), sample "
             "moments of large draws, out-of-range options, thresholds on dense and sparse data. Non-trivial: distinct data "
             "sets generated or thresholds compared")
rep.cases(1, rep.n(4000, 150000), generate)
rep.cases(2, rep.n(60, 1500), structure)
rep.cases(3, len(BADOPT) * rep.n(6, 60), refusal)
rep.cases(4, rep.n(1500, 60000), threshold)
rep.finish([("signal-to-noise ratios measured", 1500), ("noiseless data", 300), ("supports counted", 1500), ("reproduced", 3000),
            ("w_true given, 1-d", 200), ("w_true given, 2-d", 200), ("covariances measured", 40), ("options refused", 60),
            ("thresholds compared", 5000), ("thresholds compared with Rust", 1000), ("fits around the threshold", 1000)],
           ["sample moments are compared at 8 standard errors"])
