"""C19: solvers with special structure: ReversibleHeun is algebraically reversible and of order two over many steps, LeapfrogMidpoint is the
time-symmetric two-step method, SemiImplicitEuler is symplectic, HalfSolver takes two half steps and compares them with the full one."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from diffrax import RESULTS
from vk import scalar as S
from vk.harness import In
from .trees import Forest

TOL = F(1, 10**9)
B = lambda at: 1


def unit(i, names, pos=()):
    out = [S.le(S.absolute(x), 1) for k in names for x in np.asarray(i[k], dtype=object).reshape(-1)]
    for k in pos:
        h = i[k][()]
        out += [S.le(F(1, 2), h), S.le(h, 1), S.lt(0, h), S.bnot(S.eq(h, 0))]
    return out


def reversible(run, kind):
    def fn(d):
        f = lambda t, y, a: d["c"][0] + d["c"][1] * y + d["c"][2] * y * y + d["c"][3] * t
        g = lambda t, y, a: d["g"][0] + d["g"][1] * y + d["g"][2] * y * t
        X = lambda t: d["x"][0] * t + d["x"][1] * t * t
        ctl = dfx.ControlTerm(g, lambda a, b: X(b) - X(a))
        term = dict(ode=dfx.ODETerm(f), cde=ctl, both=dfx.MultiTerm(dfx.ODETerm(f), ctl))[kind]
        solver = dfx.ReversibleHeun()
        t0, t1 = d["t0"], d["t0"] + d["h"]
        y0, z0 = d["y"], d["z"]
        st = (z0, term.vf(t0, z0, None))
        y1, e1, _, s1, r1 = solver.step(term, t0, t1, y0, None, st, jnp.asarray(False))
        y0b, e0, _, s0, r0 = solver.step(term, t1, t0, y1, None, s1, jnp.asarray(False))
        return dict(y=y0b, s=s0, st=st, ok=(r0 == RESULTS.successful) & (r1 == RESULTS.successful), e=(e0, e1))

    def prop(i, o, op):
        out = [("ok", o["ok"][()]), ("y", op.near(o["y"][()], i.y[()], TOL, B)), ("yhat", op.near(o["s"][0][()], i.z[()], TOL, B))]
        a, b = jax.tree_util.tree_leaves(o["s"][1]), jax.tree_util.tree_leaves(o["st"][1])
        for k, (u, v) in enumerate(zip(a, b)):
            out.append((f"slope{k}", op.near(u[()], v[()], TOL, B)))
        return out

    run.case(f"reversible-{kind}", fn, dict(t0=In(), h=In(), y=In(), z=In(), c=In((4,)), g=In((3,)), x=In((2,))), prop,
             lambda i: unit(i, ["t0", "y", "z", "c", "g", "x"], ["h"]), timeout=60)


def revheun_order(run, n):
    fo = Forest(2, 1)
    m = fo.n

    def fn(d):
        t0 = d["t0"]
        y0 = d["q"] * jnp.arange(1.0, 2 * m + 1)

        def vf(t, y, a):
            z = y - y0
            return jnp.concatenate([fo.vf(z[:m]), fo.vf(z[m:], t - t0)])
        term = dfx.ODETerm(vf)
        solver = dfx.ReversibleHeun()
        y, t = y0, t0
        st = solver.init(term, t0, t0 + d["h"][0], y0, None)
        errs = []
        for k in range(n):
            y, err, di, st, _ = solver.step(term, t, t + d["h"][k], y, None, st, jnp.asarray(False))
            t = t + d["h"][k]
            errs.append(err)
        return dict(y=y - y0, e=errs, order=jnp.asarray(solver.order(term)), d0=di["y0"], d1=di["y1"] - y0)

    def prop(i, o, op):
        T = S.add(*[i.h[k] for k in range(2)]) if n == 2 else (i.h[0] if n == 1 else S.add(S.add(i.h[0], i.h[1]), i.h[2]))
        out = [("order", S.eq(o["order"][()], 2))]
        for half in (0, 1):
            for k in range(m):
                p = S.mul(fo.alpha[k], T if fo.size[k] == 1 else S.mul(T, T))
                out.append((f"tree{k}-{half}", op.near(o["y"][half * m + k], p, TOL, B)))
                out.append((f"dense{k}-{half}", op.near(o["d1"][half * m + k], o["y"][half * m + k], TOL, B)))
                if fo.size[k] == 1:
                    for j in range(n):
                        out.append((f"err{j}-tree{k}-{half}", op.near(o["e"][j][half * m + k], 0, TOL, B)))
        return out
    run.case(f"reversible-heun-order-{n}", fn, dict(t0=In(), q=In(), h=In((n,))), prop,
             lambda i: unit(i, ["t0", "q"]) + [x for k in range(n) for x in (S.le(F(1, 2), i.h[k]), S.le(i.h[k], 1), S.bnot(S.eq(i.h[k], 0)))], timeout=60)


def leapfrog(run):
    """given the previous value, y1 = y_{-1} + 2 h f(t0, y0): second order for equal steps, and symmetric"""
    fo = Forest(2, 1)
    m = fo.n

    def fn(d):
        t0, h = d["t0"], d["h"]
        base = d["q"] * jnp.arange(1.0, 2 * m + 1)
        ex = lambda s: jnp.asarray([float(a) for a in fo.alpha] * 2) * jnp.stack([s if k == 1 else s * s for k in fo.size] * 2)

        def vf(t, y, a):
            z = y - base
            return jnp.concatenate([fo.vf(z[:m]), fo.vf(z[m:], t - t0)])
        term = dfx.ODETerm(vf)
        solver = dfx.LeapfrogMidpoint()
        st = (t0 - h, base + ex(-h))
        y1, err, di, s1, r = solver.step(term, t0, t0 + h, base, None, st, False)
        # back again: from (t0, t1) to t0 - h
        yb, *_ = solver.step(term, t0, t0 - h, base, None, (t0 + h, y1), False)
        si = solver.init(term, t0, t0 + h, base, None)
        y1e, _, _, _, _ = solver.step(term, t0, t0 + h, base, None, si, False)
        return dict(y=y1 - base, want=ex(h), st=s1, base=base, back=yb, prev=st[1], euler=y1e - base, f=vf(t0, base, None), order=jnp.asarray(solver.order(term)), noerr=jnp.asarray(err is None),
                    di=di)

    def prop(i, o, op):
        near = lambda a, b: op.near(a, b, TOL, B)
        out = [("order", S.eq(o["order"][()], 2)), ("no-error-estimate", o["noerr"][()]), ("state-time", near(o["st"][0][()], i.t0[()]))]
        for k in range(2 * m):
            out += [(f"second-order{k}", near(o["y"][k], o["want"][k])), (f"state{k}", near(o["st"][1][k], o["base"][k])), (f"symmetric{k}", near(o["back"][k], o["prev"][k])),
                    (f"first-step{k}", near(o["euler"][k], S.mul(i.h[()], o["f"][k]))), (f"dense0-{k}", near(o["di"]["y0"][k], o["base"][k])),
                    (f"dense1-{k}", near(o["di"]["y1"][k], S.add(o["y"][k], o["base"][k])))]
        return out
    run.case("leapfrog", fn, dict(t0=In(), h=In(), q=In()), prop, lambda i: unit(i, ["t0", "q"], ["h"]), timeout=60)


def leapfrog_solve(run):
    """over several steps, each one uses the two values before it"""
    def fn(d):
        f = lambda t, y, a: d["c"][0] + d["c"][1] * y + d["c"][2] * t
        t0, h = d["t0"], d["h"]
        ts = t0 + h * jnp.arange(4.0)
        term, solver = dfx.ODETerm(f), dfx.LeapfrogMidpoint()
        st, y, ys = solver.init(term, ts[0], ts[1], d["y"], None), d["y"], []
        for k in range(3):
            y, _, _, st, _ = solver.step(term, ts[k], ts[k + 1], y, None, st, False)
            ys.append(y)
        y0 = d["y"]
        y1 = y0 + h * f(ts[0], y0, None)
        y2 = y0 + 2 * h * f(ts[1], y1, None)
        y3 = y1 + 2 * h * f(ts[2], y2, None)
        return dict(ys=jnp.stack(ys), want=jnp.stack([y1, y2, y3]))

    run.case("leapfrog-steps", fn, dict(t0=In(), h=In(), y=In(), c=In((3,))), lambda i, o, op: [(f"y{k}", op.near(o["ys"][k], o["want"][k], TOL, B)) for k in range(3)],
             lambda i: unit(i, ["t0", "y", "c"], ["h"]), timeout=60)


def symplectic(run):
    """separable Hamiltonian T(t, p) + V(t, q), two degrees of freedom"""
    def fn(d):
        a, b = d["a"], d["b"]
        V = lambda t, q: a[0] * q[0] + a[1] * q[0] * q[0] * q[1] + a[2] * q[1] * q[1] + t * a[3] * q[0] * q[1]
        K = lambda t, p: b[0] * p[0] * p[0] + b[1] * p[0] * p[1] * p[1] + t * b[2] * p[1]
        t1, t2 = dfx.ODETerm(lambda t, q, _: -jax.grad(V, 1)(t, q)), dfx.ODETerm(lambda t, p, _: jax.grad(K, 1)(t, p))
        solver = dfx.SemiImplicitEuler()
        t0, h = d["t0"], d["h"]

        def step(z):
            (p, q), err, di, st, r = solver.step((t1, t2), t0, t0 + h, (z[:2], z[2:]), None, solver.init((t1, t2), t0, t0 + h, (z[:2], z[2:]), None), False)
            return jnp.concatenate([p, q])
        z = d["z"]
        M = jax.jacfwd(step)(z)
        J = jnp.block([[jnp.zeros((2, 2)), jnp.eye(2)], [-jnp.eye(2), jnp.zeros((2, 2))]])
        z1 = step(z)
        p1 = z[:2] - h * jax.grad(V, 1)(t0, z[2:])
        return dict(m=M.T @ J @ M - J, z=z1, want=jnp.concatenate([p1, z[2:] + h * jax.grad(K, 1)(t0, p1)]), order=jnp.asarray(solver.order((t1, t2))))

    def prop(i, o, op):
        out = [("order", S.eq(o["order"][()], 1))]
        for r in range(4):
            for c in range(4):
                out.append((f"symplectic{r}{c}", op.near(o["m"][r, c], 0, TOL, B)))
            out.append((f"step{r}", op.near(o["z"][r], o["want"][r], TOL, B)))
        return out
    run.case("symplectic", fn, dict(t0=In(), h=In(), z=In((4,)), a=In((4,)), b=In((3,))), prop, lambda i: unit(i, ["t0", "z", "a", "b"], ["h"]), timeout=60)


class Any(dfx.AbstractSolver):
    """A solver whose step depends on everything it is given, and can fail."""
    term_structure = dfx.AbstractTerm
    interpolation_cls = dfx.LocalLinearInterpolation
    fails: object
    long: object  # steps longer than this one fail in their own way
    o: int = 3
    s: float = 0.5

    def order(self, terms):
        return self.o

    def strong_order(self, terms):
        return self.s

    def init(self, terms, t0, t1, y0, args):
        return 2 * t0 + t1 - y0

    def step(self, terms, t0, t1, y0, args, st, made_jump):
        f = terms.vf_prod(t0, y0, args, terms.contr(t0, t1))
        y1 = y0 + f + st * y0 + jnp.where(made_jump, t1 * y0, 0.0)
        st1 = st * (t1 - t0) + y0 + jnp.where(made_jump, 1.0, 0.0)
        w = jnp.where(t1 - t0 > self.long, self.fails[2], jnp.where(y0 > 0, self.fails[0], self.fails[1]))
        codes = [RESULTS.successful, RESULTS.nonlinear_divergence, RESULTS.singular, RESULTS.internal_error]
        res = RESULTS.successful
        for k in (1, 2, 3):
            res = RESULTS.where(w == k, codes[k], res)
        return y1, None, dict(y0=y0, y1=y1), st1, res

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args) + 5


def half(run):
    def fn(d):
        f = lambda t, y, a: d["c"][0] + d["c"][1] * y + d["c"][2] * t
        term = dfx.ODETerm(f)
        inner = Any(d["fails"], 0.75 * d["h"])
        solver = dfx.HalfSolver(inner)
        t0, t1 = d["t0"], d["t0"] + d["h"]
        st = d["s"]
        mj = d["mj"]
        y1, err, di, s1, r = solver.step(term, t0, t1, d["y"], None, st, mj)
        tm = t0 + d["h"] / 2
        ya, _, _, sa, ra = inner.step(term, t0, tm, d["y"], None, st, mj)
        yb, _, _, sb, rb = inner.step(term, tm, t1, ya, None, sa, False)
        yc, _, _, sc, rc = inner.step(term, t0, t1, d["y"], None, st, mj)
        idx = lambda r: sum(jnp.where(r == q, k, 0) for k, q in enumerate([RESULTS.successful, RESULTS.nonlinear_divergence, RESULTS.singular, RESULTS.internal_error]))
        return dict(y=y1, e=err, s=s1, r=idx(r), y_=yb, e_=yb - yc, s_=sb, rs=[idx(ra), idx(rb), idx(rc)], i=solver.init(term, t0, t1, d["y"], None), i_=inner.init(term, t0, t1, d["y"], None),
                    f=solver.func(term, t0, d["y"], None), f_=inner.func(term, t0, d["y"], None),
                    o=jnp.asarray([solver.order(term), solver.strong_order(term), solver.error_order(term)]))

    def prop(i, o, op):
        near = lambda a, b: op.near(a, b, TOL, B)
        ra, rb, rc = [x[()] for x in o["rs"]]
        want = S.ite(S.eq(ra, 0), S.ite(S.eq(rb, 0), rc, rb), ra)
        e = o["e"][()]
        return [("value", near(o["y"][()], o["y_"][()])), ("error", S.bor(op.eq(e, o["e_"][()]), op.eq(e, S.neg(o["e_"][()])))), ("error-nonnegative", S.le(0, e)), ("state", near(o["s"][()], o["s_"][()])),
                ("first-failure", S.eq(o["r"][()], want)), ("init", near(o["i"][()], o["i_"][()])), ("func", near(o["f"][()], o["f_"][()])),
                ("orders", S.band(S.eq(o["o"][0], 3), S.eq(o["o"][1], F(1, 2)), S.eq(o["o"][2], 4)))]
    run.case("half", fn, dict(t0=In(), h=In(), y=In(), s=In(), c=In((3,)), mj=In((), "bool"), fails=In((3,), "int")), prop,
             lambda i: unit(i, ["t0", "y", "s", "c"], ["h"]) + [S.band(S.le(0, i.fails[k]), S.le(i.fails[k], 3)) for k in (0, 1, 2)], timeout=120)


def run(run):
    run.bounds = ["ReversibleHeun: one step forth and back with a general quadratic, time-dependent vector field and a quadratic control",
                  "order conditions over one step (ReversibleHeun: up to three, of different sizes); LeapfrogMidpoint over three steps",
                  "SemiImplicitEuler: separable cubic time-dependent Hamiltonian, two degrees of freedom", "HalfSolver: an inner solver whose step depends on all its arguments and can fail in four ways",
                  "states, times, coefficients in [-1,1], step sizes in [1/2,1]; agreement within 1e-9"]
    for kind in ("ode", "cde", "both"):
        reversible(run, kind)
    for n in (1, 2, 3):
        revheun_order(run, n)
    leapfrog(run)
    leapfrog_solve(run)
    symplectic(run)
    half(run)
