"""Exact linear algebra on small matrices of Sym (adjugate / Cramer)."""
import numpy as np

from . import core
from .core import Sym


def det(A):
    n = A.shape[0]
    if n == 1:
        return core.lift(A[0, 0])
    if n == 2:
        return core.lift(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0])
    r = core.ZERO
    for j in range(n):
        if isinstance(A[0, j], Sym) or A[0, j] != 0:
            M = np.delete(np.delete(A, 0, 0), j, 1)
            c = A[0, j] * det(M)
            r = r + c if j % 2 == 0 else r - c
    return core.lift(r)


def adj(A):
    n = A.shape[0]
    R = np.empty((n, n), dtype=object)
    if n == 1:
        R[0, 0] = core.ONE
        return R
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, i, 0), j, 1)
            d = det(M)
            R[j, i] = d if (i + j) % 2 == 0 else -d
    return R


def sym_inv(A):
    A = np.asarray(A)
    if A.ndim > 2:
        return np.array([sym_inv(a) for a in A], dtype=object)
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = A.shape[0]
    # diagonal / block structure keeps the terms small
    isz = np.array([[core.lift(A[i, j]) is core.ZERO for j in range(n)] for i in range(n)])
    comp = _components(isz, n)
    R = np.empty((n, n), dtype=object)
    R[...] = core.ZERO
    for idx in comp:
        B = A[np.ix_(idx, idx)]
        d = det(B)
        if d is core.ZERO:
            raise np.linalg.LinAlgError("Singular matrix")
        if core.CTX is not None:
            core.CTX.assumed_nonzero.add(d)
        Ad = adj(B)
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                R[i, j] = core.lift(Ad[a, b]) / d
    return R


def _components(isz, n):
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        comp, st = [], [i]
        seen.add(i)
        while st:
            x = st.pop()
            comp.append(x)
            for y in range(n):
                if y not in seen and (not isz[x, y] or not isz[y, x]):
                    seen.add(y)
                    st.append(y)
        out.append(sorted(comp))
    return out


def sym_solve(A, b):
    b = np.asarray(b)
    return np.matmul(sym_inv(A), b) if b.ndim > 1 else np.dot(sym_inv(A), b)
