"""Reference models: written from the mathematics, independent of the library."""
import itertools
import math

import numpy as np
from numpy.polynomial import hermite_e

SETS = ['triangle', 'cube', 'cross', 'cross_nc', 'rectangle']


def member(kind, m, degree):
    if kind == 'triangle':
        return sum(m) <= degree
    if kind == 'cube':
        return max(m) <= degree
    if kind in ('cross', 'cross_nc'):
        p = 1
        for i in m:
            p *= max(1, i)
        return p <= degree
    if kind == 'rectangle':
        return m[0] <= degree and all(2*i <= degree for i in m[1:])
    raise ValueError(kind)


def index_set(kind, dim, degree):
    """The mathematical set, by pruned depth-first enumeration (sets are downward closed)."""
    result = []

    def rec(prefix):
        if len(prefix) == dim:
            result.append(tuple(prefix))
            return
        i = 0
        while True:
            m = prefix + [i]
            if not member(kind, m + [0]*(dim - len(m)), degree):
                break
            rec(m)
            i += 1
            if i > degree and kind not in ('cross', 'cross_nc') or i > max(degree, 1):
                break
    rec([])
    return set(result)


def min_degree(kind):
    return 1 if kind in ('cross', 'cross_nc') else 0


def size(kind, dim, degree):
    if kind == 'triangle':
        return math.comb(dim + degree, dim)
    if kind == 'cube':
        return (degree + 1)**dim
    if kind == 'rectangle':
        return (degree + 1)*(degree//2 + 1)**(dim - 1)
    # cross: number of m with prod max(1, m_i) <= degree
    counts = {1: 2}  # product -> number of 1d values (0 and 1 have product 1)
    for i in range(2, degree + 1):
        counts[i] = 1
    table = {1: 1}
    for _ in range(dim):
        new = {}
        for p, n in table.items():
            for q, k in counts.items():
                if p*q <= degree:
                    new[p*q] = new.get(p*q, 0) + n*k
                else:
                    break
        table = new
    return sum(table.values())


def hermite_1d(n, x):
    """Normalised Hermite polynomials 0..n at x: array (len(x), n + 1)."""
    x = np.asarray(x, float)
    return np.stack([hermite_e.hermeval(x, [0]*k + [1])/math.sqrt(math.factorial(k))
                     for k in range(n + 1)], axis=-1)


def fourier_1d(n, x):
    """1/sqrt(2 pi), sin(x)/sqrt(pi), cos(x)/sqrt(pi), sin(2x)/sqrt(pi), ..."""
    x = np.asarray(x, float)
    out = [np.full(x.shape, 1/math.sqrt(2*math.pi))]
    for k in range(1, n + 1):
        w = (k + 1)//2
        out.append((np.sin(w*x) if k % 2 == 1 else np.cos(w*x))/math.sqrt(math.pi))
    return np.stack(out, axis=-1)


def basis_1d(fourier, n, x):
    return fourier_1d(n, x) if fourier else hermite_1d(n, x)


def dbasis_1d(fourier, n, x, order=1):
    """Derivative of given order of the 1d basis functions."""
    x = np.asarray(x, float)
    if order == 0:
        return basis_1d(fourier, n, x)
    out = []
    if fourier:
        out.append(np.zeros(x.shape))
        for k in range(1, n + 1):
            w = (k + 1)//2
            phase = order*math.pi/2
            f = np.sin if k % 2 == 1 else np.cos
            out.append(w**order*f(w*x + phase)/math.sqrt(math.pi))
    else:
        for k in range(n + 1):
            c = np.zeros(k + 1)
            c[k] = 1/math.sqrt(math.factorial(k))
            c = hermite_e.hermeder(c, order) if k >= order else np.zeros(1)
            out.append(hermite_e.hermeval(x, c))
    return np.stack(out, axis=-1)


def grid(nodes):
    """Tensor grid in row-major order (last direction fastest): (n_points, dim)."""
    mesh = np.meshgrid(*[np.asarray(n, float) for n in nodes], indexing='ij')
    return np.stack([m.ravel() for m in mesh], axis=-1)


def grid_weights(weights):
    w = np.ones(1)
    for wi in weights:
        w = np.outer(w, np.asarray(wi, float)).ravel()
    return w


def vandermonde(indices, points, fourier, orders=None):
    """Values of the (derivatives of the) tensor basis functions at points (n, dim)."""
    indices = np.asarray(indices, int)
    points = np.asarray(points, float)
    v = np.ones((len(points), len(indices)))
    for d in range(points.shape[1]):
        n = int(indices[:, d].max()) if len(indices) else 0
        order = 0 if orders is None else orders[d]
        b = dbasis_1d(fourier[d], n, points[:, d], order)
        v *= b[:, indices[:, d]]
    return v


def gauss(n, fourier):
    """Exact 1d quadrature of the reference measure, own construction."""
    if fourier:
        return (-math.pi + 2*math.pi*np.arange(n)/n, np.full(n, 2*math.pi/n))
    x, w = hermite_e.hermegauss(n)
    return x, w/math.sqrt(2*math.pi)


def gauss_nd(ns, fourier):
    q = [gauss(n, f) for n, f in zip(ns, fourier)]
    return [a for a, _ in q], [b for _, b in q]


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in set_partitions(rest):
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i+1:]
        yield [[first]] + p


def subsets(items, min_size=0):
    items = list(items)
    for k in range(min_size, len(items) + 1):
        for c in itertools.combinations(items, k):
            yield list(c)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol*scale)


def exact(a, b, tol=1e-12):
    """Every entry to relative precision (no sums involved)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol*np.abs(b)))


def relative(a, b, tol=1e-9):
    """Like close, but a result of tiny magnitude must be as precise as any other."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or bool(np.max(np.abs(a - b)) <= tol*np.max(np.abs(b))))


def magnitudes(v):
    """The same entries times powers of ten from 1e-40 to 1e40."""
    return v*10.**((np.arange(v.size)*7 % 11 - 5)*8.).reshape(v.shape)


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    d = np.abs(a - b)
    if not np.all(np.isfinite(a)):
        return 'non-finite values'
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return 'largest difference %.3g at %s: got %r, expected %r' % (
        d[i] if d.size else 0, i, a[i] if d.size else None, b[i] if d.size else None)


def generic(n, seed=0):
    """Deterministic dense generic vector with distinct non-zero entries of order 1."""
    k = np.arange(1, n + 1) + 1000*seed
    v = np.sin(k*1.2345678 + .1) + .37*np.cos(k*k*.7234567)
    return v + np.where(np.abs(v) < 1e-2, .05, 0.)


def triple_hermite(degree):
    """T[k][i][j] = <h_k h_i h_j>, exact formula; k <= 2 degree, i, j <= degree."""
    t = np.zeros((2*degree + 1, degree + 1, degree + 1))
    f = math.factorial
    for k in range(2*degree + 1):
        for i in range(degree + 1):
            for j in range(degree + 1):
                if (i + j + k) % 2 or k > i + j or i > j + k or j > i + k:
                    continue
                s = (i + j + k)//2
                num, den = f(i)*f(j)*f(k), (f(s - i)*f(s - j)*f(s - k))**2
                from fractions import Fraction
                t[k, i, j] = math.sqrt(Fraction(num, den))
    return t


def triple_fourier(degree):
    """Integrals of products of three modes (exact trapezoidal rule)."""
    n = 4*degree + 5
    x, w = gauss(n, True)
    a, b = fourier_1d(2*degree, x), fourier_1d(degree, x)
    t = np.einsum('n,nk,ni,nj->kij', w, a, b, b)
    t[np.abs(t) < 1e-14] = 0.
    return t


def triple(fourier, degree):
    return triple_fourier(degree) if fourier else triple_hermite(degree)


def varf_tensor(inds, inds2, fourier, degree):
    """A[k, i, j] = <h_k h_i h_j> for multi-indices k in inds2, i and j in inds."""
    inds, inds2 = np.asarray(inds), np.asarray(inds2)
    out = np.ones((len(inds2), len(inds), len(inds)))
    for d, f in enumerate(fourier):
        t = triple(f, degree)
        out *= t[inds2[:, d]][:, inds[:, d]][:, :, inds[:, d]]
    return out
