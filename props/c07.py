"""C07: constant step size: every step has length dt0 except a shorter last one; prescribed step times are hit exactly, and
only valid prescriptions are accepted."""
from fractions import Fraction as F
import jax.numpy as jnp
import diffrax as dfx
from diffrax import RESULTS
from vk import scalar as S
from vk.harness import In
from vk.stubs import SymSolver, result_flags
from .loop import EPS

AND, OR, NOT, IMP = S.band, S.bor, S.bnot, S.implies


def solve(d, N, ctrl, dt0, t0, t1, rev=False, **kw):
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), SymSolver(d["D"], jnp.zeros(N), jnp.zeros(N), 0.0), t0, t1, dt0, d["y0"],
                          saveat=dfx.SaveAt(steps=True, t0=True), stepsize_controller=ctrl, adjoint=dfx.ForwardMode(), max_steps=N, throw=False, **kw)
    return dict(ts=sol.ts, ys=sol.ys, res=result_flags(sol.result), n=sol.stats["num_steps"], rej=sol.stats["num_rejected_steps"])


def constant(run, name, N, rev=False, infinite=False, timeout=60, clip=False):
    sg = -1 if rev else 1
    inp = dict(D=In((N,)), y0=In(), t0=In(), h=In())
    if not infinite:
        inp["t1"] = In()

    def fn(d):
        return solve(d, N, dfx.ConstantStepSize(), sg * d["h"], d["t0"], d["t1"] if not infinite else sg * jnp.inf)

    def assumes(i):
        T0, h = S.mul(sg, i.t0[()]), i.h[()]
        out = [S.lt(10**6 * EPS, h), S.le(h, 100), S.le(S.absolute(i.t0[()]), 100)]
        if not infinite:
            T1 = S.mul(sg, i.t1[()])
            out += [S.lt(S.add(T0, 10**6 * EPS), T1), S.lt(i.t0[()], i.t1[()]) if not rev else NOT(S.lt(i.t0[()], i.t1[()]))]
            for j in range(1, N + 2):
                p = S.add(T0, S.mul(j, h))
                # not within rounding of a multiple of dt0, unless exactly on it
                out.append(OR(S.eq(p, T1), S.lt(S.add(p, 10**6 * EPS), T1), S.lt(S.add(T1, 10**6 * EPS), p)))
        return out

    def prop(i, o, op):
        T0, h = S.mul(sg, i.t0[()]), i.h[()]
        T1 = S.mul(sg, i.t1[()]) if not infinite else None
        out = [("starts-at-t0", op.eq(o["ts"][0], i.t0[()])), ("y-at-t0", op.eq(o["ys"][0], i.y0[()])), ("none-rejected", S.eq(o["rej"][()], 0))]
        y, done, cnt, prev = i.y0[()], False, 0, T0
        for j in range(1, N + 1):
            p = S.add(T0, S.mul(j, h))
            end = p if infinite else S.minimum(p, T1)
            out.append((f"step{j}-end", op.eq(o["ts"][j], S.ite(done, S.INF if hasattr(S, "INF") else float("inf"), S.mul(sg, end)))))
            y1 = S.add(y, S.add(i.D[j - 1], S.sub(end, prev)))
            out.append((f"step{j}-value", IMP(NOT(done), op.eq(o["ys"][j], y1))))
            if not infinite:
                out.append((f"step{j}-last-exact", IMP(AND(NOT(done), S.le(T1, p)), S.eq(o["ts"][j], i.t1[()]))))
            cnt = S.add(cnt, S.ite(done, 0, 1))
            y, prev = y1, end
            if not infinite:
                done = OR(done, S.le(T1, p))
        out.append(("count", S.eq(o["n"][()], cnt)))
        out.append(("result", op.iff(o["res"]["successful"][()], done)))
        out.append(("result-max", op.iff(o["res"]["max_steps_reached"][()], NOT(done))))
        return out

    run.case(name, fn, inp, prop, assumes, eps=EPS, errors="forbid", timeout=timeout, while_bound=N + 4)


def stepto(run, name, n, N, rev=False, valid=True):
    sg = -1 if rev else 1
    inp = dict(D=In((N,)), y0=In(), ts=In((n,)), t0=In(), t1=In())

    def fn(d):
        return solve(d, N, dfx.StepTo(d["ts"]), None, d["t0"], d["t1"])

    def assumes(i):
        T0, T1 = S.mul(sg, i.t0[()]), S.mul(sg, i.t1[()])
        out = [S.lt(S.add(T0, 10**6 * EPS), T1), S.lt(i.t0[()], i.t1[()]) if not rev else NOT(S.lt(i.t0[()], i.t1[()]))]
        out += [S.le(S.absolute(x), 100) for x in list(i.ts) + [i.t0[()], i.t1[()]]]
        ts = [S.mul(sg, x) for x in i.ts]
        if valid:
            out += [S.lt(S.add(a, 10**6 * EPS), b) for a, b in zip(ts, ts[1:])] + [S.eq(ts[0], T0), S.eq(ts[-1], T1)]
        else:  # distinguishable in floating point
            for a, b in list(zip(ts, ts[1:])) + [(ts[0], T0), (ts[-1], T1)]:
                out.append(OR(S.eq(a, b), S.lt(S.add(a, 10**6 * EPS), b), S.lt(S.add(b, 10**6 * EPS), a)))
        return out

    def prop_valid(i, o, op):
        out = [("t0", S.eq(o["ts"][0], i.t0[()])), ("none-rejected", S.eq(o["rej"][()], 0))]
        y, prev = i.y0[()], S.mul(sg, i.ts[0])
        for j in range(1, N + 1):
            if j < n:
                end = S.mul(sg, i.ts[j])
                y = S.add(y, S.add(i.D[j - 1], S.sub(end, prev)))
                prev = end
                out.append((f"step{j}-end", S.eq(o["ts"][j], i.ts[j])))
                out.append((f"step{j}-value", op.eq(o["ys"][j], y)))
            else:
                out.append((f"step{j}-none", op.eq(o["ts"][j], float("inf"))))
        out.append(("count", S.eq(o["n"][()], min(N, n - 1))))
        out.append(("result", op.iff(o["res"]["successful"][()], n - 1 <= N)))
        return out

    def prop_err(i, o, op, err):
        ts = [S.mul(sg, x) for x in i.ts]
        ok = AND(*[S.lt(a, b) for a, b in zip(ts, ts[1:])], S.eq(i.ts[0], i.t0[()]), S.eq(i.ts[-1], i.t1[()]))
        return [("rejected-iff-invalid", op.iff(err, NOT(ok)))]

    if valid:
        run.case(name, fn, inp, prop_valid, assumes, eps=EPS, errors="forbid", while_bound=N + 4)
    else:
        run.case(name, fn, inp, prop_err, assumes, eps=EPS, errors="expose", while_bound=N + 4, fid=False)


def run(run):
    q = run.quick
    run.bounds = ["at most %d steps; dt0, t0, t1 symbolic reals with magnitude below 100" % (4 if q else 6), "prescribed times: up to %d" % (4 if q else 5)]
    constant(run, "constant", 4 if q else 6)
    constant(run, "constant-reverse", 3 if q else 5, rev=True)
    constant(run, "constant-infinite", 4, infinite=True)
    constant(run, "constant-infinite-reverse", 3, infinite=True, rev=True)
    for n in ((2, 4) if q else (2, 3, 4, 5)):
        stepto(run, f"stepto-{n}", n, n)
    stepto(run, "stepto-few-steps", 4, 2)
    stepto(run, "stepto-reverse", 4, 4, rev=True)
    stepto(run, "stepto-validation", 4, 3, valid=False)
    stepto(run, "stepto-validation-reverse", 4, 3, rev=True, valid=False)
