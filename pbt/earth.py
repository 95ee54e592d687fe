"""Stand-in for py-earth (not installed), with the interface that MARSInterpolant documents to use: ridge regression on 1, u and u^2.

It only serves to observe what the adapter does: on which data it is fitted, what it is asked for and what becomes of the answers.
"""
import sys
import types

import numpy as np


class Earth:
    fits = 0

    def __init__(self, *args, **kw):
        self.coef = None

    def fit(self, X, y, *args, **kw):
        X = np.array(X, dtype=float)
        y = np.array(y, dtype=float).reshape(len(X), -1)
        if y.shape[1] != 1:
            raise ValueError("one response expected")
        B = self.basis(X)
        self.coef = np.linalg.solve(B.T @ B + 1e-3 * np.eye(B.shape[1]), B.T @ y[:, 0])
        self.dim = X.shape[1]
        type(self).fits += 1
        return self

    @staticmethod
    def basis(X):
        return np.hstack((np.ones((len(X), 1)), X, X ** 2))

    def predict(self, X, *args, **kw):
        X = np.array(X, dtype=float)
        if X.ndim != 2 or X.shape[1] != self.dim:
            raise ValueError("Wrong number of columns in X")
        return self.basis(X) @ self.coef

    def predict_deriv(self, X, variables=None, *args, **kw):
        X = np.array(X, dtype=float)
        d = self.dim
        if variables is None:
            variables = range(d)
        cols = [self.coef[1 + j] + 2 * X[:, j] * self.coef[1 + d + j] for j in variables]
        return np.array(cols).T[:, :, None]  # points x variables x responses


def install():
    try:
        import pyearth  # noqa: F401
    except ImportError:
        m = types.ModuleType("pyearth")
        m.Earth = Earth
        sys.modules["pyearth"] = m
