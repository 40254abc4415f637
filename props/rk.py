"""Shared: real solver steps executed on the tree system."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import optimistix as optx
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from .trees import Forest


class NilRoot(optx.AbstractRootFinder):
    """Exact root finder for implicit relations s*(z - g(z)) with g nilpotent (component 0 of g constant)."""
    depth: int = 5
    rtol: float = 1e-3
    atol: float = 1e-3
    norm = staticmethod(optx.max_norm)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return None

    def step(self, fn, y, args, options, state, tags):
        return y, state, None

    def terminate(self, fn, y, args, options, state, tags):
        return jnp.asarray(True), optx.RESULTS.successful

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        # arbitrary start: the root does not depend on the prediction
        flat, un = jax.flatten_util.ravel_pytree(y)
        R = lambda z: jax.flatten_util.ravel_pytree(fn(un(z), args)[0])[0]
        z = jnp.zeros_like(flat)
        s = R(z.at[0].add(1.0))[0] - R(z)[0]
        for _ in range(self.depth):
            z = z - R(z) / s
        return un(z), aux, {}


# name -> (constructor, colours, order of dense output, trees up to)
SOLVERS = {
    "Euler": (lambda: dfx.Euler(), 1, 1),
    "Midpoint": (lambda: dfx.Midpoint(), 1, 2),
    "Heun": (lambda: dfx.Heun(), 1, 2),
    "Ralston": (lambda: dfx.Ralston(), 1, 2),
    "Bosh3": (lambda: dfx.Bosh3(), 1, 3),
    "Tsit5": (lambda: dfx.Tsit5(), 1, 4),
    "Dopri5": (lambda: dfx.Dopri5(), 1, 4),
    "Dopri8": (lambda: dfx.Dopri8(), 1, 5),
    "ImplicitEuler": (lambda: dfx.ImplicitEuler(root_finder=NilRoot(3)), 1, 1),
    "Kvaerno3": (lambda: dfx.Kvaerno3(root_finder=NilRoot(4)), 1, 3),
    "Kvaerno4": (lambda: dfx.Kvaerno4(root_finder=NilRoot(5)), 1, 3),
    "Kvaerno5": (lambda: dfx.Kvaerno5(root_finder=NilRoot(6)), 1, 3),
    "Sil3": (lambda: dfx.Sil3(root_finder=NilRoot(4)), 2, 2),
    "KenCarp3": (lambda: dfx.KenCarp3(root_finder=NilRoot(4)), 2, 2),
    "KenCarp4": (lambda: dfx.KenCarp4(root_finder=NilRoot(5)), 2, 3),
    "KenCarp5": (lambda: dfx.KenCarp5(root_finder=NilRoot(5)), 2, 3),
}
ORDER = dict(Euler=1, Midpoint=2, Heun=2, Ralston=2, Bosh3=3, Tsit5=5, Dopri5=5, Dopri8=8, ImplicitEuler=1, Kvaerno3=3, Kvaerno4=4,
             Kvaerno5=5, Sil3=2, KenCarp3=3, KenCarp4=4, KenCarp5=5)
# order of the local error estimate: it vanishes for trees with fewer nodes, and not for all trees with that many
ERR = dict(Midpoint=2, Heun=2, Ralston=2, Bosh3=3, Tsit5=5, Dopri5=5, Dopri8=8, ImplicitEuler=2, Kvaerno3=3, Kvaerno4=4,
           Kvaerno5=5, Sil3=3, KenCarp3=3, KenCarp4=4, KenCarp5=5)


def terms(fo, colors, T0, Y0):
    n = fo.n

    def part(c):
        def vf(t, y, args):
            z = y - Y0
            return jnp.concatenate([fo.vf(z[:n], color=c), fo.vf(z[n:], t - T0, color=c)])
        return dfx.ODETerm(vf)
    if colors == 1:
        return part(None)
    return dfx.MultiTerm(*[part(c) for c in range(colors)])


def power(x, n):
    r = 1
    for _ in range(n):
        r = S.mul(r, x)
    return r


INP = dict(t0=In(), h=In(), th=In(), q=In())


def assumes(i):
    # (the integration loop always steps forward in its own time)
    h, th = i.h[()], i.th[()]
    return [S.le(F(1, 2), h), S.le(h, 1), S.lt(0, h), S.bnot(S.eq(h, 0)), S.le(0, th), S.le(th, 1), S.le(S.absolute(i.t0[()]), 1), S.le(S.absolute(i.q[()]), 1)]


def concretise(c):
    c = dict(c)
    c["t0"], c["h"], c["th"], c["q"] = np.asarray(0.3), np.asarray(1.0), np.asarray(0.37), np.asarray(0.4)
    return c


BND = lambda z: 1
