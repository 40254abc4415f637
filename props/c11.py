"""C11: the dense output of a step starts and ends at the step's values, and has the order of the solver's interpolant in between."""
from fractions import Fraction as F
import jax.numpy as jnp
from vk import scalar as S
from .trees import Forest
from .rk import SOLVERS, ORDER, terms, power, INP, assumes, concretise


def one(run, name):
    mk, colors, r = SOLVERS[name]
    fo = Forest(max(r, 2), colors)
    n = fo.n

    def fn(d):
        solver = mk()
        T0, t1 = d["t0"], d["t0"] + d["h"]
        y0 = d["q"] * jnp.arange(1.0, 2 * n + 1)
        term = terms(fo, colors, T0, y0)
        st = solver.init(term, T0, t1, y0, None)
        y1, err, di, st, res = solver.step(term, T0, t1, y0, None, st, False)
        it = solver.interpolation_cls(t0=T0, t1=t1, **di)
        tm = T0 + d["th"] * d["h"]
        return dict(y1=y1, a=it.evaluate(T0), b=it.evaluate(t1), mid=it.evaluate(tm), inc=it.evaluate(T0, tm), inc2=it.evaluate(tm, t1), der=it.derivative(tm))

    def prop(i, o, op):
        h, th = i.h[()], i.th[()]
        out = []
        tol = F(1, 10**9)
        for half in (0, 1):
            for k in range(n):
                j = half * n + k
                y0 = S.mul(i.q[()], j + 1)
                m = fo.size[k]
                out.append((f"start-{j}", op.near(o["a"][j], y0, tol)))
                out.append((f"end-{j}", op.near(o["b"][j], o["y1"][j], tol)))
                out.append((f"inc-{j}", op.near(o["inc"][j], S.sub(o["mid"][j], y0), tol)))
                out.append((f"inc2-{j}", op.near(o["inc2"][j], S.sub(o["y1"][j], o["mid"][j]), tol)))
                if m <= r:
                    out.append((f"order{m}-{j}", op.near(S.sub(o["mid"][j], y0), S.mul(fo.alpha[k], power(S.mul(h, th), m)), tol)))
                    out.append((f"derivative-order{m}-{j}", op.near(o["der"][j], S.mul(m * fo.alpha[k], power(S.mul(h, th), m - 1)), tol)))
        return out

    run.case(name, fn, INP, prop, assumes, concretise=concretise, timeout=60)


def run(run):
    run.bounds = ["all rooted trees (two-coloured for IMEX methods) with at most as many nodes as the interpolant's order; any evaluation point in the step; step size in [1/2,1]",
                  "coefficients exact as stored; agreement within 1e-9", "implicit stage equations solved exactly by a stand-in root finder"]
    for name in SOLVERS:
        one(run, name)
