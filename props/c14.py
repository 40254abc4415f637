"""C14: reusing the previous step's work changes nothing: a step continued from the solver's memory equals a step started afresh,
and after a discontinuity nothing stale is used."""
from fractions import Fraction as F
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from .trees import Forest
from .rk import SOLVERS, ORDER, terms

TOL = F(1, 10**9)


def cubic(Y0, T0):
    """a vector field mixing time and state: two components, polynomial of low degree"""
    def vf(t, y, a):
        u = y - Y0
        return jnp.stack([1.0 + (t - T0), u[0] * a + 2.0 * (t - T0), u[1] + u[0] * u[0]])
    return vf


def one(run, name, timeout=60):
    mk, colors, _ = SOLVERS[name]
    n = 3

    def fn(d):
        solver = mk()
        T0 = d["t0"]
        y0 = d["q"] * jnp.arange(1.0, n + 1)
        f = cubic(y0, T0)
        if colors == 1:
            term = dfx.ODETerm(f)
        else:
            term = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: f(t, y, a) * jnp.array([1.0, 0.0, 1.0])), dfx.ODETerm(lambda t, y, a: f(t, y, a) * jnp.array([1.0, 1.0, 0.0])))
        a = d["a"]
        t1 = T0 + d["h"]
        st0 = solver.init(term, T0, t1, y0, a)
        y1, _, _, st1, _ = solver.step(term, T0, t1, y0, a, st0, False)

        def res(s, ta, tb, y, st, mj):
            r, err, di, _, _ = solver.step(term, ta, tb, y, a, st, mj)
            it = solver.interpolation_cls(t0=ta, t1=tb, **di)
            return dict(y=r, err=err, mid=it.evaluate(ta + 0.375 * (tb - ta)))
        t2 = t1 + d["g"]
        fresh = lambda ta, tb, y: res("", ta, tb, y, solver.init(term, ta, tb, y, a), False)
        tj = t1 + d["gap"]
        yj = y1
        return dict(cont=res("", t1, t2, y1, st1, False), cont_dyn=res("", t1, t2, y1, st1, jnp.asarray(False)), want=fresh(t1, t2, y1),
                    jump=res("", tj, tj + d["g"], yj, st1, True), jump_dyn=res("", tj, tj + d["g"], yj, st1, jnp.asarray(True)), jwant=fresh(tj, tj + d["g"], yj),
                    first_jump=res("", T0, t1, y0, st0, jnp.asarray(True)), fwant=fresh(T0, t1, y0))

    def prop(i, o, op):
        out = []
        for a, b in (("cont", "want"), ("cont_dyn", "want"), ("jump", "jwant"), ("jump_dyn", "jwant"), ("first_jump", "fwant")):
            for key in ("y", "err", "mid"):
                if o[a][key] is None:
                    continue
                for k in range(n):
                    out.append((f"{a}-{key}-{k}", op.near(o[a][key][k], o[b][key][k], TOL, bounds=lambda z: 1)))
        return out

    def assumes(i):
        return [S.lt(0, i[k][()]) for k in ("h", "g", "gap")] + [S.bnot(S.eq(i[k][()], 0)) for k in ("h", "g", "gap")] + [S.le(i[k][()], 1) for k in ("h", "g", "gap")] + [S.le(S.absolute(i[k][()]), 1) for k in ("t0", "q", "a")]

    def conc(c):
        return dict(t0=np.asarray(0.3), h=np.asarray(0.7), g=np.asarray(0.9), gap=np.asarray(0.6), q=np.asarray(0.4), a=np.asarray(0.8))

    run.case(name, fn, dict(t0=In(), h=In(), g=In(), gap=In(), q=In(), a=In()), prop, assumes, concretise=conc, timeout=timeout)


def run(run):
    run.bounds = ["two consecutive steps (plus a gap, for discontinuities) of every Runge-Kutta solver", "a polynomial vector field of time, state and parameter in three components (nilpotent, so that implicit stages are solved exactly by a stand-in root finder); step sizes, times, state, parameter symbolic in [-1,1]", "agreement within 1e-9"]
    for name in SOLVERS:
        one(run, name)
