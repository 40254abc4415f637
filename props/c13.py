"""C13: every Runge-Kutta solver has its order: y1, and the embedded error estimate, satisfy the order conditions of all rooted trees."""
from fractions import Fraction as F
import jax.numpy as jnp
from vk import scalar as S
from .trees import Forest
from .rk import SOLVERS, ORDER, ERR, terms, power, INP, assumes, concretise


def one(run, name, scan=None):
    mk, colors, _ = SOLVERS[name]
    p = ORDER[name]
    q = ERR.get(name)
    fo = Forest(max(p, q or 0), colors)
    n = fo.n

    def fn(d):
        solver = mk()
        T0, t1 = d["t0"], d["t0"] + d["h"]
        y0 = d["q"] * jnp.arange(1.0, 2 * n + 1)
        term = terms(fo, colors, T0, y0)
        st = solver.init(term, T0, t1, y0, None)
        y1, err, di, st, res = solver.step(term, T0, t1, y0, None, st, False)
        out = dict(y1=y1, order=jnp.asarray(solver.order(term)), err=err, ok=jnp.asarray(res == type(res).successful) if hasattr(type(res), "successful") else jnp.asarray(True))
        if q is not None:
            out["eo"] = jnp.asarray(solver.error_order(term))
        return out

    def prop(i, o, op):
        h = i.h[()]
        out = [("order", S.eq(o["order"][()], p))]
        for half in (0, 1):
            for k in range(n):
                v = S.sub(o["y1"][half * n + k], S.mul(i.q[()], half * n + k + 1))
                m = fo.size[k]
                if m <= p:
                    out.append((f"tree{k}-order{m}-{'time' if half else 'state'}", op.near(v, S.mul(fo.alpha[k], power(h, m)), F(1, 10**9))))
                if q is not None and m < q:
                    out.append((f"err-tree{k}-order{m}", op.near(o["err"][half * n + k], 0, F(1, 10**9))))
        if q is not None:
            big = S.bor(*[S.lt(F(1, 10**8), S.absolute(o["err"][k])) for k in range(n) if fo.size[k] == q])
            out.append(("error-estimate-detects-order-%d" % q, big))
            out.append(("error-order", S.le(o["eo"][()], q)))
            out.append(("error-order-positive", S.lt(0, o["eo"][()])))
        return out

    run.case(name, fn, INP, prop, assumes, concretise=concretise, timeout=60)


def run(run):
    run.bounds = ["all rooted trees (two-coloured for IMEX methods) with at most as many nodes as the order; step size in [1/2,1], any initial time and state",
                  "coefficients exact as stored; agreement within 1e-9", "implicit stage equations solved exactly by a stand-in root finder"]
    for name in SOLVERS:
        one(run, name)
