"""Reference for pruning and quantising with error compensation, written from
the definition (optimal brain surgeon): when weight i of a row is fixed, the
weights that come later move by its error times the i-th row of the inverse of
the Hessian over its i-th diagonal element, and i leaves the problem."""
import numpy as np


def inverse(h, percdamp):
    """inverse of the damped statistics, inputs that never occur get one"""
    h = np.array(h, dtype=np.float64)
    for i in range(len(h)):
        if h[i, i] == 0:
            h[i, i] = 1
    h = h + np.eye(len(h)) * percdamp * np.mean(np.diag(h))
    return np.linalg.inv(h)


def eliminate(inv, i):
    return inv - np.outer(inv[:, i], inv[i, :]) / inv[i, i]


def compensated(row, out, h, percdamp, order=None):
    """weight i as it was when it was fixed, and the diagonal element then"""
    inv = inverse(h, percdamp)
    w = list(row)
    got, diag = {}, {}
    order = list(order if order is not None else range(len(row)))
    for n, i in enumerate(order):
        got[i], diag[i] = w[i], inv[i, i]
        for j in order[n + 1:]:
            w[j] = w[j] - (w[i] - out[i]) * float(inv[i, j] / inv[i, i])
        inv = eliminate(inv, i)
    return got, diag
