"""Generators and oracles for the latent hierarchical model code (LHM)."""
import os
import sys

import numpy as np
import pandas as pd
from scipy.stats import norm

PKG = "cdmir.discovery.funtional_based.LearningHierarchicalStructure."


def module(name):
    """An LHM module; its siblings import each other by bare name, as in the package's README."""
    import importlib
    import cdmir.discovery.funtional_based as base
    path = os.path.join(os.path.dirname(base.__file__), "LearningHierarchicalStructure")
    if path not in sys.path:
        sys.path.insert(0, path)
    return importlib.import_module(PKG + name)


def cov(x):
    x = np.asarray(x, float)
    x = x - x.mean(axis=0)
    return x.T @ x / (len(x) - 1)


def tetrad(S, i, j, k, l, n):
    """-> (sample tetrad |s_ik s_jl - s_il s_jk|, Wishart standard error): the minor of rows {i,j} and columns {k,l}."""
    t = S[i, k] * S[j, l] - S[i, l] * S[j, k]
    d2 = lambda a, b: S[a, a] * S[b, b] - S[a, b] ** 2
    m = S[np.ix_([i, j, k, l], [i, j, k, l])]
    var = (n + 1) / ((n - 1) * (n - 2)) * d2(i, j) * d2(k, l) - np.linalg.det(m) / (n - 2)
    return abs(t), np.sqrt(abs(var))


def tetrad_p(S, i, j, k, l, n):
    t, sd = tetrad(S, i, j, k, l, n)
    return 2 * norm.sf(t / sd)


def exact_sample(S, n, rng, names):
    """A table of n rows whose sample covariance is S up to rounding."""
    p = len(S)
    z = rng.uniform(-1, 1, (n, p))
    z -= z.mean(axis=0)
    q, _ = np.linalg.qr(z)
    q -= q.mean(axis=0)
    q, _ = np.linalg.qr(q)
    return pd.DataFrame(q @ np.linalg.cholesky(S).T * np.sqrt(n - 1), columns=names)


def tree_model(tree, sizes, impure, rng):
    """Latents 0..m-1 with tree[v] the parent of v (tree[0] is None), sizes[v] observed children each; impure[v] joins the two
    children of latent v.  -> (covariance of the observed variables, groups of column numbers)"""
    m = len(sizes)
    coef = lambda: float(rng.uniform(.7, 1.3) * rng.choice([-1, 1]))
    A = np.zeros((m, m))
    for v in range(m):
        if tree[v] is not None:
            A[v, tree[v]] = coef() * .8
    T = np.linalg.inv(np.eye(m) - A)
    L = T @ np.diag(rng.uniform(.7, 1.3, m)) @ T.T
    p = sum(sizes)
    F, B, groups = np.zeros((p, m)), np.zeros((p, p)), []
    c = 0
    for v in range(m):
        groups.append(list(range(c, c + sizes[v])))
        for i in groups[-1]:
            F[i, v] = coef()
        if impure[v]:
            B[groups[-1][1], groups[-1][0]] = coef()
        c += sizes[v]
    M = np.linalg.inv(np.eye(p) - B)
    S = M @ (F @ L @ F.T + np.diag(rng.uniform(.2, .5, p))) @ M.T
    return S, groups


def table(kind, n, p, rng):
    """A random full-rank data table."""
    A = rng.normal(size=(p, p))
    if kind == "gauss":
        x = rng.normal(size=(n, p)) @ A
    elif kind == "heavy":
        x = rng.standard_t(3, (n, p)) @ A
    elif kind == "uniform":
        x = rng.uniform(-1, 1, (n, p)) @ A + 5
    elif kind == "factor":
        f = rng.normal(size=(n, 1))
        x = f @ rng.normal(size=(1, p)) * 2 + rng.normal(size=(n, p))
    elif kind == "indep":
        x = rng.exponential(size=(n, p))
    else:  # scaled
        x = (rng.normal(size=(n, p)) @ A) * 10.0 ** rng.randint(-3, 4, p) + 2
    return x


KINDS = ["gauss", "heavy", "uniform", "factor", "indep", "scaled"]
