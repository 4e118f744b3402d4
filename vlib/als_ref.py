"""float64 reference of the ALS problem"""
import numpy as np


def equations(Y, idx, conf, reg):
    """A, b of the normal equations of one row, and the matrices of absolute values for rounding bounds"""
    Y = np.asarray(Y, float)
    f = Y.shape[1]
    Yi = Y[idx]
    c = np.asarray(conf, float)
    a = np.abs(c)
    A = Y.T @ Y + reg * np.eye(f) + (Yi.T * (a - 1)) @ Yi
    b = (np.where(c > 0, c, 0)[:, None] * Yi).sum(axis=0)
    aY, aYi = np.abs(Y), np.abs(Yi)
    Aabs = aY.T @ aY + reg * np.eye(f) + (aYi.T * (a + 1)) @ aYi
    babs = (np.where(c > 0, c, 0)[:, None] * aYi).sum(axis=0)
    return A, b, Aabs, babs


def row(m, r):
    s = slice(m.indptr[r], m.indptr[r + 1])
    return m.indices[s], m.data[s]


def judge_minimiser(mon, x, Y, idx, conf, reg, eps, what, c=12.0):
    """x minimises the row's objective, up to rounding in a dtype with the given eps"""
    x = np.asarray(x, float)
    if not len(idx):
        mon.check(not x.any(), what + ": a row without interactions is not all zeros", x=x)
        return
    A, b, Aabs, babs = equations(Y, idx, conf, reg)
    xs = np.linalg.solve(A, b)
    n = len(Y) + len(idx) + len(b) + 4
    bound = c * eps * (np.sqrt(n) + len(b)) * np.linalg.norm(
        Aabs @ np.maximum(np.abs(x), np.abs(xs)) + babs) + 1e-25
    res = np.linalg.norm(A @ x - b)
    mon.maximum("residual_over_bound", res / bound)
    mon.check(np.isfinite(x).all() and res <= bound, what + ": not the least-squares solution", x=x, expected=xs,
              residual=res, bound=bound, idx=idx, conf=conf, reg=reg)


def objective(x, Y, idx, conf, reg):
    A, b, Aabs, babs = equations(Y, idx, conf, reg)
    x = np.asarray(x, float)
    ax = np.abs(x)
    return x @ A @ x - 2 * b @ x, ax @ Aabs @ ax + 2 * babs @ ax


def loss(Cui, X, Y, reg):
    """the objective by its definition over every cell, and the sum of absolute terms"""
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    U, I = Cui.shape
    C = np.ones((U, I))
    P = np.zeros((U, I))
    for u in range(U):
        i, c = row(Cui, u)
        C[u, i] = np.abs(c.astype(float))
        P[u, i] = c > 0
    S = X @ Y.T
    total = (C * (P - S) ** 2).sum() + reg * ((X * X).sum() + (Y * Y).sum())
    aX, aY = np.abs(X), np.abs(Y)
    aS = aX @ aY.T
    ab = ((C + 2) * aS**2).sum() + 2 * (C * P * aS).sum() + (C * P).sum() + reg * ((X * X).sum() + (Y * Y).sum())
    return total / C.sum(), ab / C.sum(), C.sum()
