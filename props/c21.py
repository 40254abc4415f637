"""C21: derivatives through a solve. The discretise-then-optimise adjoints give the exact derivative of the sequence of accepted steps (step sizes
held fixed); BacksolveAdjoint solves the continuous adjoint equations; ImplicitAdjoint applies the implicit function theorem."""
from fractions import Fraction as F
import equinox as eqx
from types import SimpleNamespace
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np
import diffrax as dfx
from diffrax import RESULTS
from vk import scalar as S
from vk.harness import In
from .rk import NilRoot

TOL = F(1, 10**9)
B = lambda at: 1
EPS = F(1, 2**44)
MAX = 6


class Script(dfx.AbstractStepSizeController):
    """attempts given in advance: accepted (their end points) or rejected. Proposes every step from the table `ends`."""
    ends: tuple  # end of attempt k
    keep: tuple
    jump: tuple

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return jnp.asarray(self.ends[0]), jnp.asarray(0)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        k = controller_state
        keep = jnp.asarray(self.keep)[k]
        nxt = jnp.asarray(self.ends + (self.ends[-1],))[k + 1]
        return keep, jnp.where(keep, t1, t0), nxt, jnp.asarray(self.jump)[k], k + 1, RESULTS.successful


# attempts over [0, 1]: (end, accepted?, jump after it?)
SCRIPTS = {
    "aa": ((0.5, True, False), (1.0, True, False)),
    "ara": ((0.5, True, False), (1.0, False, False), (0.75, True, False), (1.0, True, False)),
    "raj": ((0.75, False, False), (0.5, True, True), (1.0, True, False)),
}


class Vf(eqx.Module):
    """linear in y[0] which drives y[1] quadratically; depends on time, on args, and on a parameter of its own. Low degree, so that derivatives stay
    small polynomials."""
    c: object

    def __call__(self, t, y, a):
        return dict(u=a[0] * y["u"] + a[1] * t, v=self.c * y["u"] * y["u"] + t * y["v"])


def unrolled(solver, script, f, y0, args, ts):
    """the accepted steps, one after the other; and the dense output at ts"""
    term = dfx.ODETerm(f)
    t, y, mj, prev = jnp.asarray(0.0), y0, False, 0.0
    st = solver.init(term, t, jnp.asarray(script[0][0]), y0, args)
    out = [(t, y)]
    dense = {}
    for end, keep, jump in script:
        if not keep:
            continue
        t1 = jnp.asarray(end)
        y1, _, di, st, _ = solver.step(term, t, t1, y, args, st, mj)
        I = solver.interpolation_cls(t0=t, t1=t1, **di)
        for k, s in enumerate(ts):
            if prev < s <= end:
                dense[k] = I.evaluate(jnp.asarray(s))
        t, y, mj, prev = t1, y1, jump, end
        out.append((t, y))
    return out, dense


def flat(x):
    return [v for l in jtu.tree_leaves(x) for v in np.asarray(l, dtype=object).reshape(-1)]


def close(i, o, op):
    a, b = jtu.tree_leaves(o["got"]), jtu.tree_leaves(o["want"])
    assert len(a) == len(b)
    out = []
    for k, (p, q) in enumerate(zip(a, b)):
        assert p.shape == q.shape, (p.shape, q.shape)
        for j, (x, y) in enumerate(zip(p.reshape(-1), q.reshape(-1))):
            out.append((f"{k}.{j}", op.near(x, y, TOL, B)))
    return out


def unit(i):
    return [S.le(S.absolute(x), 1) for k in i._d for x in flat(i[k])]


KINDS = {
    "t1": lambda: dfx.SaveAt(t1=True),
    "ts": lambda: dfx.SaveAt(ts=[0.25, 0.75, 1.0]),
    "steps": lambda: dfx.SaveAt(t0=True, steps=True),
    "subs": lambda: dfx.SaveAt(subs=[dfx.SubSaveAt(ts=[0.25, 0.75], fn=lambda t, y, a: y["u"] * a[1] + t * y["v"]), dfx.SubSaveAt(t0=True, t1=True)]),
    "dense": lambda: dfx.SaveAt(dense=True),
    "state": lambda: dfx.SaveAt(t1=True, solver_state=True),
}
TS = (0.25, 0.75, 1.0)


def outputs(kind, script, out, dense, args):
    ys = [y for _, y in out]
    if kind in ("t1", "state"):
        return ys[-1]
    if kind in ("ts", "dense"):
        return [dense[k] for k in range(3)]
    if kind == "steps":
        return ys
    return [[dense[k]["u"] * args[1] + TS[k] * dense[k]["v"] for k in range(2)], ys[0], ys[-1]]


def select(kind, script, sol):
    at = lambda k: jtu.tree_map(lambda x: x[k], sol.ys)
    if kind in ("t1", "state"):
        return at(0)
    if kind == "ts":
        return [at(k) for k in range(3)]
    if kind == "dense":
        return [sol.evaluate(s) for s in TS]
    if kind == "steps":
        return [at(k) for k in range(1 + sum(s[1] for s in script))]
    w, e = sol.ys
    return [[w[0], w[1]], jtu.tree_map(lambda x: x[0], e), jtu.tree_map(lambda x: x[1], e)]


SOLVERS = {"Euler": lambda **k: dfx.Euler(), "Heun": lambda **k: dfx.Heun(**k), "Bosh3": lambda **k: dfx.Bosh3(**k)}
ADJ = {
    "checkpointed": lambda: dfx.RecursiveCheckpointAdjoint(),
    "checkpoints-1": lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=1),
    "checkpoints-2": lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=2),
    "direct": lambda: dfx.DirectAdjoint(),
    "forward": lambda: dfx.ForwardMode(),
}


def discrete(run, sname, adj, kind, scr):
    script = SCRIPTS[scr]
    ends, keep, jump = (tuple(s[k] for s in script) for k in range(3))

    def fn(d):
        solver = SOLVERS[sname]()
        y0 = dict(u=d["y"][0], v=d["y"][1])
        p = (y0, d["a"], Vf(d["c"]))

        def real(p):
            y0, a, f = p
            sol = dfx.diffeqsolve(dfx.ODETerm(f), solver, 0.0, 1.0, None, y0, args=a, adjoint=ADJ[adj](), max_steps=MAX, saveat=KINDS[kind](), stepsize_controller=Script(ends, keep, jump),
                                  throw=False)
            return select(kind, script, sol)

        def ref(p):
            y0, a, f = p
            solver = SOLVERS[sname](**(dict(scan_kind="lax") if adj == "forward" else {}))
            return outputs(kind, script, *unrolled(solver, script, f, y0, a, TS), a)
        if adj == "forward":
            tan = jtu.tree_map(lambda x: x, (dict(u=d["dy"][0], v=d["dy"][1]), d["da"], Vf(d["dc"])))
            g, w = jax.jvp(real, (p,), (tan,)), jax.jvp(ref, (p,), (tan,))
        else:
            o, vjp = jax.vjp(real, p)
            o_, vjp_ = jax.vjp(ref, p)
            ct = jtu.tree_unflatten(jtu.tree_structure(o), [d["w"][k % 3] * (1 + k) for k in range(len(jtu.tree_leaves(o)))])
            g, w = (o, vjp(ct)), (o_, vjp_(ct))
        return dict(got=g, want=w)
    ins = dict(y=In((2,)), a=In((2,)), c=In())
    ins |= dict(dy=In((2,)), da=In((2,)), dc=In()) if adj == "forward" else dict(w=In((3,)))
    run.case(f"{adj}-{sname}-{kind}-{scr}", fn, ins, close, unit, timeout=60, eps=EPS, while_bound=MAX + 3, batch=False)


def times(run, adj, n, kind):
    """derivatives with respect to t0, t1, dt0 and the save times, for steps of constant size; taken at fixed times, for all states and parameters"""
    def fn(d):
        solver = dfx.Heun(scan_kind="lax") if adj == "forward" else dfx.Heun()
        y0 = dict(u=d["y"][0], v=d["y"][1])
        f, a = Vf(d["c"]), d["a"]
        p = tuple(jnp.asarray(x) for x in (0.0, 0.5 * n - (0.25 if kind == "short" else 0.0), 0.5, 0.1875))

        def real(p):
            t0, t1, dt0, s = p
            sol = dfx.diffeqsolve(dfx.ODETerm(f), dfx.Heun(), t0, t1, dt0, y0, args=a, adjoint=ADJ[adj](), max_steps=n + 1, saveat=dfx.SaveAt(ts=jnp.stack([s, t1])), throw=False)
            return sol.ys

        def ref(p):
            t0, t1, dt0, s = p
            term = dfx.ODETerm(f)
            st, y, t, got = solver.init(term, t0, t0 + dt0, y0, a), y0, t0, None
            for k in range(n):
                e = t1 if k == n - 1 else t0 + (k + 1) * dt0
                y1, _, di, st, _ = solver.step(term, t, e, y, a, st, False)
                if got is None:
                    got = solver.interpolation_cls(t0=t, t1=e, **di).evaluate(s)
                t, y = e, y1
            return jtu.tree_map(lambda x, y: jnp.stack([x, y]), got, y)
        if adj == "forward":
            tan = tuple(d["w"])
            g, w = jax.jvp(real, (p,), (tan,)), jax.jvp(ref, (p,), (tan,))
        else:
            g, w = [], []
            for r, fun in ((g, real), (w, ref)):
                o, vjp = jax.vjp(fun, p)
                r.append((o, vjp(dict(u=d["w"][:2], v=d["w"][2:]))))
        return dict(got=g, want=w)
    run.case(f"times-{adj}-{n}-{kind}", fn, dict(y=In((2,)), a=In((2,)), c=In(), w=In((4,))), close, unit, timeout=60, eps=EPS, while_bound=n + 4, batch=False)


class Lin(eqx.Module):
    c: object

    def __call__(self, t, y, a):
        return dict(u=self.c * y["u"] + a[1] * t, v=a[0] * y["u"] + a[1] * y["v"])


BSAVE = {  # saved times, including t0 or not
    "t1": (dict(t1=True), (), True),
    "t0t1": (dict(t0=True, t1=True), (0.0,), True),
    "ts": (dict(ts=[0.5, 1.0]), (0.5, 1.0), False),
    "ts-inside": (dict(ts=[0.25, 0.5]), (0.25, 0.5), False),
    "t0ts": (dict(t0=True, ts=[0.5, 0.75]), (0.0, 0.5, 0.75), False),
    "t0": (dict(t0=True), (0.0,), False),
}


def backsolve(run, sname, kind, back):
    """the continuous adjoint equations, solved backward from every saved value to the one before"""
    kw, saved, t1 = BSAVE[kind]
    saved = saved + ((1.0,) if t1 else ())
    mk = {"Euler": dfx.Euler, "Heun": dfx.Heun, "Bosh3": dfx.Bosh3, "SemiImplicit": None}
    h = 0.25 if back == "other" else 0.5

    def fn(d):
        fwd = mk[sname]()
        bwd = dfx.Heun() if back == "other" else fwd
        y0 = dict(u=d["y"][0], v=d["y"][1])
        args = dict(a=d["a"], flag=True, n=jnp.asarray(3))
        f = lambda p, t, y, a: p(t, y, a["a"])

        class Term(eqx.Module):
            p: object

            def __call__(self, t, y, args):
                return self.p(t, y, args["a"])

        adj = dfx.BacksolveAdjoint(**(dict(solver=dfx.Heun(), dt0=-0.25) if back == "other" else {}))

        def real(p):
            y0, a, q = p
            sol = dfx.diffeqsolve(dfx.ODETerm(Term(q)), fwd, 0.0, 1.0, 0.5, y0, args=args | dict(a=a), adjoint=adj, max_steps=None, saveat=dfx.SaveAt(**kw), throw=False)
            return sol.ys
        p0 = (y0, d["a"], Lin(d["c"]))
        o, vjp = jax.vjp(real, p0)
        ct = dict(u=d["w"][:len(saved)], v=d["w"][len(saved):])
        got = vjp(ct)
        # the same, written out
        g = lambda t, y, a, q: q(t, y, a)

        def aug(t, z, _):
            y, ay, aa, aq = z
            dy, pull = jax.vjp(lambda y, a, q: g(t, y, a, q), y, d["a"], p0[2])
            m = jtu.tree_map(lambda x: -x, pull(ay))
            return (dy, *m)
        zero = jtu.tree_map(jnp.zeros_like, p0)
        at = lambda x, k: jtu.tree_map(lambda v: v[k], x)
        ay, aa, aq = zero
        term = dfx.ODETerm(aug)
        for k in range(len(saved) - 1, -1, -1):
            hi, lo = saved[k], saved[k - 1] if k > 0 else 0.0
            ay = jtu.tree_map(jnp.add, ay, at(ct, k))
            z, t = (at(o, k), ay, aa, aq), hi
            while t > lo:
                e = max(t - h, lo)
                z, *_ = bwd.step(term, jnp.asarray(t), jnp.asarray(e), z, None, bwd.init(term, jnp.asarray(t), jnp.asarray(e), z, None), False)
                t = e
            _, ay, aa, aq = z
        return dict(got=got, want=(ay, aa, aq))
    n = len(saved)
    run.case(f"backsolve-{sname}-{kind}-{back}", fn, dict(y=In((2,)), a=In((2,)), c=In(), w=In((2 * n,))), close, unit, timeout=60, eps=EPS, while_bound=8, batch=False)


def adaptive(run, adj):
    """PIDController: the step sizes count as constants. The error is that of a component with known values (so that the steps taken are known), which
    drives a component with any values."""
    ctl = dfx.PIDController(rtol=0.3, atol=0.3, norm=lambda e: jnp.abs(e["u"]), pcoeff=0.0, icoeff=1.0)

    def field(t, y, a):
        return dict(u=-4 * y["u"] + 2 * a[2] * t, v=a[0] * y["u"] + a[1] * y["v"])
    solve = lambda y0, a, ad, **k: dfx.diffeqsolve(dfx.ODETerm(field), dfx.Heun(**k), 0.0, 1.0, 0.5, y0, args=a, adjoint=ad, max_steps=16, stepsize_controller=ctl,
                                                   saveat=dfx.SaveAt(steps=True), throw=False)
    sol = solve(dict(u=jnp.asarray(1.0), v=jnp.asarray(0.5)), jnp.asarray([0.5, 0.5, 1.0]), dfx.RecursiveCheckpointAdjoint())
    ends = [float(x) for x in sol.ts if np.isfinite(x)]
    assert int(sol.stats["num_rejected_steps"]) >= 1 and 3 <= len(ends) <= 8, (ends, sol.stats)

    def fn(d):
        y0 = dict(u=jnp.asarray(1.0), v=d["v"])
        a = jnp.stack([d["a"][0], d["a"][1], 1.0])
        p = (y0, a)
        kw = dict(scan_kind="lax") if adj == "forward" else {}

        def real(p):
            y0, a = p
            return jtu.tree_map(lambda x: x[:len(ends)], solve(y0, a, ADJ[adj](), **kw).ys)

        def ref(p):
            y, a = p
            term, solver, t, st, out = dfx.ODETerm(field), dfx.Heun(**kw), 0.0, None, []
            ts = jax.lax.stop_gradient(solve(y0, jnp.asarray([0.0, 0.0, 1.0]), dfx.RecursiveCheckpointAdjoint(), **kw).ts)
            for k in range(len(ends)):
                e = ts[k]
                st = solver.init(term, t, e, y, a)
                y, _, _, st, _ = solver.step(term, t, e, y, a, st, True)
                t = e
                out.append(y)
            return jtu.tree_map(lambda *x: jnp.stack(x), *out)
        if adj == "forward":
            tan = (dict(u=d["w"][0], v=d["w"][1]), d["w"][2:5])
            g, w = jax.jvp(real, (p,), (tan,)), jax.jvp(ref, (p,), (tan,))
        else:
            (o, vjp), (o_, vjp_) = jax.vjp(real, p), jax.vjp(ref, p)
            ct = dict(u=d["w"][:len(ends)], v=d["w"][len(ends):2 * len(ends)])
            g, w = (o, vjp(ct)), (o_, vjp_(ct))
        return dict(got=g, want=w)
    run.case(f"adaptive-{adj}", fn, dict(v=In(), a=In((2,)), w=In((2 * len(ends),))), close, unit, timeout=60, while_bound=20, batch=False, eps=EPS)


def event(run, adj, kind):
    """the time of an event moves with the parameters. (The time itself is known: it is set by a component with known values, that meets a threshold.)"""
    def fn(d):
        field = lambda t, y, a: dict(u=a[0] + 0 * y["u"], v=a[1] * y["u"] + a[2] * y["v"] + t)
        if kind == "real":
            cond = lambda t, y, args, **k: y["u"] - args[3] + args[4] * t
        elif kind == "bool":
            cond = lambda t, y, args, **k: y["u"] > args[3]
        p = (dict(u=jnp.asarray(0.0), v=d["v"]), jnp.asarray([1.0, 0, 0, 0.75, 0.25]).at[1:3].set(d["a"]))

        def real(p):
            y, a = p
            ev = dfx.Event(cond, root_finder=NilRoot(1))
            return dfx.diffeqsolve(dfx.ODETerm(field), dfx.Euler(), 0.0, 2.0, 0.5, y, args=a, adjoint=ADJ[adj](), max_steps=5, event=ev, saveat=dfx.SaveAt(t1=True, ts=[0.25]), throw=False).ys

        def ref(p):
            y, a = p
            f = lambda t, y: field(t, y, a)
            go = lambda y, t, h: jtu.tree_map(lambda x, k: x + h * k, y, f(t, y))
            y1 = go(y, 0.0, 0.5)
            # a[0] (t - 1/2) + y1["u"] - a[3] + a[4] t = 0
            t = (a[0] * 0.5 - y1["u"] + a[3]) / (a[0] + a[4]) if kind == "real" else 1.0
            return jtu.tree_map(lambda p, q: jnp.stack([p, q]), go(y, 0.0, 0.25), go(y1, 0.5, t - 0.5))
        if adj == "forward":
            tan = (dict(u=d["w"][0], v=d["w"][1]), jnp.concatenate([d["w"][2:], d["w"][:1] * 2]))
            g, w = jax.jvp(real, (p,), (tan,)), jax.jvp(ref, (p,), (tan,))
        else:
            (o, vjp), (o_, vjp_) = jax.vjp(real, p), jax.vjp(ref, p)
            ct = dict(u=d["w"][:2], v=d["w"][2:4])
            g, w = (o, vjp(ct)), (o_, vjp_(ct))
        return dict(got=jtu.tree_map(lambda x: x, g), want=w)
    sub = lambda i, o, op: close(i, o, op)
    run.case(f"event-{kind}-{adj}", fn, dict(v=In(), a=In((2,)), w=In((6,))), sub, unit, timeout=60, while_bound=20, batch=False, eps=EPS)


IMPL = {"ImplicitEuler": 1, "Kvaerno3": 4, "Kvaerno4": 5, "Kvaerno5": 6}


def stages(run, sname, adj):
    """implicit stages: the derivative is that of the exact solution of the stage equations (linear in the state, so that these can be written out)"""
    def fn(d):
        solver = getattr(dfx, sname)(root_finder=NilRoot(1))
        if sname == "ImplicitEuler":
            tab = SimpleNamespace(num_stages=1, a_lower=(), b_sol=[1.0], c=[], a_diagonal=[1.0], c1=1.0)
        else:
            if adj == "forward":
                solver = getattr(dfx, sname)(root_finder=NilRoot(1), scan_kind="lax")
            tab = solver.tableau
        field = lambda t, y, a: a[0] * y + a[1] * t + a[2]
        p = (d["y"], jnp.asarray(-1.0), d["a"], jnp.asarray(0.5))
        script = SCRIPTS["ara"]

        def real(p):
            y, c, a, dt = p
            args = jnp.concatenate([c[None], a])
            return dfx.diffeqsolve(dfx.ODETerm(field), solver, 0.0, 2 * dt, dt, y, args=args, adjoint=ADJ[adj](), max_steps=3, stepsize_controller=dfx.ConstantStepSize(), throw=False).ys[0]

        def ref(p):
            y, c, a, h = p
            t = 0.0
            for _ in range(2):
                ks = []
                for i in range(tab.num_stages):
                    diag = tab.a_diagonal[i] if tab.a_diagonal is not None else 0.0
                    low = [] if i == 0 else tab.a_lower[i - 1]
                    ci = 0.0 if i == 0 else tab.c[i - 1]
                    if i == 0 and diag != 0:
                        ci = tab.c1
                    z = y + h * sum((float(low[j]) * ks[j] for j in range(i)), start=jnp.zeros(()))
                    ks.append((c * z + a[0] * (t + float(ci) * h) + a[1]) / (1 - h * c * float(diag)))
                y = y + h * sum(float(b) * k for b, k in zip(tab.b_sol, ks))
                t = t + h
            return y
        if adj == "forward":
            tan = (d["w"][0], d["w"][1], d["w"][2:4], d["w"][4])
            g, w = jax.jvp(real, (p,), (tan,)), jax.jvp(ref, (p,), (tan,))
        else:
            (o, vjp), (o_, vjp_) = jax.vjp(real, p), jax.vjp(ref, p)
            g, w = (o, vjp(d["w"][0])), (o_, vjp_(d["w"][0]))
        return dict(got=g, want=w)
    run.case(f"stages-{sname}-{adj}", fn, dict(y=In(), a=In((2,)), w=In((5,))), close, unit, timeout=60, while_bound=20, batch=False, eps=EPS)


def implicit(run, kind):
    """at a steady state, the derivative is the one of the implicit function theorem; whatever the path to it"""
    def fn(d):
        def field(t, y, args):
            a, b = args["p"], args["q"][0]
            f = jnp.stack([a[0] * y[0] + b[0], a[1] * y[1] + b[1] * y[1] * y[1]])
            return f + t * jnp.stack([a[2], b[2]])

        def real(p):
            a, b, y = p
            adj = dfx.ImplicitAdjoint(linear_solver=lx.Diagonal(well_posed=True), tags=lx.diagonal_tag)
            f = field if kind == "args" else (lambda t, y, _: field(t, y, dict(p=a, q=[b])))
            term = dfx.ODETerm(jtu.Partial(f)) if kind == "args" else dfx.ODETerm(Closure(a, b, field))
            return dfx.diffeqsolve(term, dfx.Euler(), 0.0, 1.0, 0.5, y, args=dict(p=a, q=[b]), adjoint=adj, max_steps=4, throw=False).ys[0]
        o, vjp = jax.vjp(real, (d["a"], d["b"], d["y"]))
        ((ga, gb, gy),) = vjp(d["w"])
        J = jnp.stack([d["a"][0], d["a"][1] + 2 * d["b"][1] * o[1]])
        plain = dfx.diffeqsolve(dfx.ODETerm(field), dfx.Euler(), 0.0, 1.0, 0.5, d["y"], args=dict(p=d["a"], q=[d["b"]]), max_steps=4, throw=False).ys[0]
        lam = jnp.stack([ga[2], gb[2]])  # minus the solution of J^T lam = w (the time is 1)
        return dict(jl=J * lam + d["w"], ga=ga, gb=gb, gy=gy, o=o, plain=plain, prod=jnp.stack([lam[0] * o[0], lam[1] * o[1], lam[0], lam[1] * o[1] * o[1]]), J=J)

    def prop(i, o, op):
        ok = S.band(*[S.bnot(S.eq(x, 0)) for x in o["J"]])
        eq = lambda x, y: S.implies(ok, op.eq(x, y))
        out = [(f"value{k}", op.near(o["o"][k], o["plain"][k], TOL, B)) for k in range(2)] + [(f"y0-{k}", eq(o["gy"][k], 0)) for k in range(2)]
        out += [(f"linear{k}", eq(o["jl"][k], 0)) for k in range(2)]
        out += [("a0", eq(o["ga"][0], o["prod"][0])), ("a1", eq(o["ga"][1], o["prod"][1])), ("b0", eq(o["gb"][0], o["prod"][2])), ("b1", eq(o["gb"][1], o["prod"][3]))]
        return out
    run.case(f"implicit-{kind}", fn, dict(y=In((2,)), a=In((3,)), b=In((3,)), w=In((2,))), prop, lambda i: unit(i) + [S.le(F(1, 2), i.a[0]), S.le(F(1, 2), i.a[1]), S.le(S.absolute(i.b[1]), F(1, 64))],
             timeout=60, eps=EPS, while_bound=8, batch=False)


class Closure(eqx.Module):
    a: object
    b: object
    f: object = eqx.field(static=True)

    def __call__(self, t, y, args):
        return self.f(t, y, dict(p=self.a, q=[self.b]))


def run(run):
    run.bounds = ["two components, one driving the other quadratically, in a field with arguments and a parameter of its own; cotangents (tangents) of all outputs symbolic; all values in [-1,1]",
                  "discrete adjoints: 2 to 4 attempts over [0,1] with fixed end points, accepted or rejected, with and without a jump; Euler, Heun, Bosh3; implicit: Kvaerno3-5 and implicit Euler on linear fields",
                  "derivatives with respect to t0, t1, dt0 and save times, of steps of constant size, at fixed times", "PIDController: one rejection and four steps, one norm",
                  "events: one event, Euler, an affine condition; BacksolveAdjoint: linear fields, Euler, Heun, Bosh3, up to three save times; ImplicitAdjoint: diagonal Jacobian, quadratic",
                  "agreement within 1e-9"]
    for adj in ADJ:
        for sname in SOLVERS:
            for kind in KINDS:
                if not run.quick or (sname == "Euler" and adj != "checkpoints-2") or (sname != "Euler" and kind in ("ts", "dense") and adj in ("checkpointed", "direct", "forward")):
                    discrete(run, sname, adj, kind, "raj" if kind in ("ts", "state") else "ara")
                    if not run.quick:
                        discrete(run, sname, adj, kind, "aa")
    for adj in ("checkpointed", "direct", "forward"):
        for n in (1, 2) if run.quick else (1, 2, 3, 4):
            for kind in ("full", "short"):
                times(run, adj, n, kind)
        adaptive(run, adj)
        for s in IMPL:
            if not run.quick or s in ("ImplicitEuler", "Kvaerno3", "Kvaerno5"):
                stages(run, s, adj)
        for kind in ("real", "bool"):
            event(run, adj, kind)
    for sname in ("Euler", "Heun", "Bosh3"):
        for kind in BSAVE:
            if not run.quick or sname != "Heun":
                backsolve(run, sname, kind, "same")
    backsolve(run, "Euler", "ts", "other")
    for kind in ("args", "closure"):
        implicit(run, kind)
