"""Finite menus of quadratures shared by the checks, with their reference description."""
import math

import numpy as np

# name: (kind per direction, dirs, mean, cov, factor expression in x0..x4)
COV2 = [[1., .3], [.3, .8]]
COV2B = [[2., -.9], [-.9, .7]]
COV3 = [[2., 1., 1.], [1., 2., 1.], [1., 1., 2.]]      # repeated eigenvalue 1, 1, 4
COV3B = [[1.3, .2, 0.], [.2, .9, -.1], [0., -.1, .6]]

H, F = 'hermite', 'fourier'
POSITIONS = {
    'h0': ([H], [0], [0.], [[1.]]),
    'h0m': ([H], [0], [.3], [[.7]]),
    'h1m': ([H], [1], [-.4], [[1.6]]),
    'h3': ([H], [3], [.2], [[.5]]),
    'hh': ([H, H], [0, 1], [0., 0.], [[1., 0.], [0., 1.]]),
    'hhm': ([H, H], [0, 1], [.3, -.2], [[.7, 0.], [0., 1.3]]),
    'hh02': ([H, H], [0, 2], [.1, -.5], [[1.4, 0.], [0., .6]]),
    'hh13': ([H, H], [1, 3], [.1, -.5], [[.4, 0.], [0., 1.6]]),
    'hhe': ([H, H], [0, 1], [.2, -.1], [[.8, 1e-17], [1e-17, .8]]),       # diagonal up to rounding errors
    'hhn': ([H, H], [0, 1], [0., 0.], COV2),
    'hhnm': ([H, H], [0, 1], [.4, -.3], COV2B),
    'hhn12': ([H, H], [1, 2], [.2, .1], COV2),
    'hhh': ([H, H, H], [0, 1, 2], [0., 0., 0.], [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]),
    'hhhm': ([H, H, H], [0, 1, 2], [.1, -.2, .3], [[.6, 0., 0.], [0., 1.2, 0.], [0., 0., .9]]),
    'hhh024': ([H, H, H], [0, 2, 4], [.1, -.2, .3], [[.6, 0., 0.], [0., 1.2, 0.], [0., 0., .9]]),
    'hhhn': ([H, H, H], [0, 1, 2], [.1, -.2, .3], COV3),
    'hhhb': ([H, H, H], [0, 1, 2], [0., 0., 0.], COV3B),
    'f0': ([F], [0], [0.], [[1.]]),
    'f1b': ([F], [1], [.5], [[1.7**2]]),
    'ff': ([F, F], [0, 1], [0., 0.], [[1., 0.], [0., 1.]]),
    'ff02b': ([F, F], [0, 2], [.5, -.3], [[.6**2, 0.], [0., 1.5**2]]),
    'fh': ([F, H], [0, 1], [0., 0.], [[1., 0.], [0., 1.]]),
    'hf': ([H, F], [0, 1], [.3, 0.], [[.7, 0.], [0., 1.]]),
    'fh13m': ([F, H], [1, 3], [.2, -.4], [[1.5**2, 0.], [0., .6]]),
    'hfh': ([H, F, H], [0, 1, 2], [0., .1, .2], [[1., 0., 0.], [0., 1., 0.], [0., 0., .8]]),
}


class Spec:
    """Reference description of a quadrature."""

    def __init__(self, name, n_points, factor='1'):
        self.name = name
        self.types, self.dirs, mean, cov = POSITIONS[name]
        self.mean, self.cov = np.array(mean), np.array(cov)
        self.dim = len(self.dirs)
        self.n = n_points
        self.fourier = [t == F for t in self.types]
        self.diag = bool(np.allclose(self.cov, np.diag(np.diag(self.cov))))
        self.factor_expr = factor
        self.key = '%s/n%s/%s' % (name, n_points, factor)

    def make(self, hm):
        """The library's quadrature, through its public constructors."""
        factor = self.factor_expr
        if all(self.fourier):
            bounds = [(m - math.pi*math.sqrt(c), m + math.pi*math.sqrt(c))
                      for m, c in zip(self.mean, np.diag(self.cov))]
            return hm.Quad.fourier(self.n, dirs=list(self.dirs), bounds=bounds, factor=factor)
        if not any(self.fourier):
            return hm.Quad.gauss_hermite(self.n, dirs=list(self.dirs), mean=list(self.mean),
                                         cov=self.cov.tolist(), factor=factor)
        # Mixed: nodes and weights of one-dimensional quadratures
        nodes, weights = [], []
        for i, f in enumerate(self.fourier):
            q = hm.Quad.fourier(self.n, dirs=[0]) if f else hm.Quad.gauss_hermite(self.n, dirs=[0])
            nodes.append(q.nodes[0])
            weights.append(q.weights[0])
        return hm.Quad(nodes, weights, mean=list(self.mean), cov=self.cov.tolist(),
                       dirs=list(self.dirs), types=list(self.types), factor=factor)

    def ref_grid(self):
        import ref
        nodes, weights = ref.gauss_nd([self.n]*self.dim, self.fourier)
        return nodes, weights, ref.grid(nodes), ref.grid_weights(weights)


def numeric(expr, dirs):
    """Vectorised numerical function of an array (n, dim) from an expression in x, y, z, w, v or x0..x4."""
    import sympy
    names = 'xyzwv'
    syms = {}
    for i, c in enumerate(names):
        s = sympy.Symbol('x%d' % i, real=True)
        syms[c] = s
        syms['x%d' % i] = s
    e = sympy.sympify(expr, locals=syms)
    e = e.subs({s: syms[s.name] for s in e.free_symbols if s.name in syms})
    f = sympy.lambdify([syms['x%d' % d] for d in dirs], e, 'math')

    def call(points):
        points = np.asarray(points, float)
        return np.array([float(f(*p)) for p in points.tolist()])
    return call
