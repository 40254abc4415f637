"""Rooted (coloured) trees and the polynomial system whose components are their elementary differentials.

Component tau has vector field  prod_{children c of tau} y[c]  and starts at 0, so its exact solution at h is
h^|tau| * alpha(tau) with alpha(tau) = prod alpha(children) / |tau|, and a one-step method is of order p exactly if it
reproduces the components of all trees with at most p nodes (Butcher)."""
from fractions import Fraction as F
import itertools as it
import functools as ft


@ft.lru_cache(None)
def trees(n, colors=1):
    """all rooted trees with n nodes (color, sorted tuple of children)"""
    out = []
    for ch in forests(n - 1, colors):
        for c in range(colors):
            out.append((c, ch))
    return out


@ft.lru_cache(None)
def forests(n, colors):
    """multisets of trees with n nodes in total"""
    if n == 0:
        return [()]
    out = set()
    for k in range(1, n + 1):
        for t in trees(k, colors):
            for f in forests(n - k, colors):
                out.add(tuple(sorted(f + (t,))))
    return sorted(out)


def size(t):
    return 1 + sum(size(c) for c in t[1])


def alpha(t):
    r = F(1)
    for c in t[1]:
        r *= alpha(c)
    return r / size(t)


class Forest:
    def __init__(self, order, colors=1):
        self.ts = [t for n in range(1, order + 1) for t in trees(n, colors)]
        self.idx = {t: i for i, t in enumerate(self.ts)}
        self.n = len(self.ts)
        self.size = [size(t) for t in self.ts]
        self.alpha = [alpha(t) for t in self.ts]

    def vf(self, y, s=None, color=None):
        """list of components; s: replaces the one-node tree (time since the start), if given"""
        import jax.numpy as jnp
        comps = []
        for t in self.ts:
            if color is not None and t[0] != color:
                comps.append(jnp.zeros(()))
                continue
            r = None
            for c in t[1]:
                v = s if (s is not None and c[1] == ()) else y[self.idx[c]]
                r = v if r is None else r * v
            comps.append(jnp.ones(()) if r is None else r)
        return jnp.stack(comps)
