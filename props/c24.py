"""C24: invalid times are refused with an error, valid ones are not: save times out of order or outside of the interval, a step of the wrong sign,
times of data out of order or missing, Brownian paths queried outside of their range, Langevin terms that contradict each other."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from vk.stubs import SymSolver, SymController

EPS = F(1, 2**44)
GAP = F(1, 2**20)
AND, OR, NOT = S.band, S.bor, S.bnot


def apart(xs):
    """distinguishable in floating point, or equal"""
    out = [S.le(S.absolute(x), 16) for x in xs]
    for k, a in enumerate(xs):
        for b in xs[:k]:
            out.append(OR(S.eq(a, b), S.lt(S.add(a, GAP), b), S.lt(S.add(b, GAP), a)))
    return out


class Once(dfx.AbstractStepSizeController):
    """one step to the end"""

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t1, None

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        return True, t1, t1, False, None, dfx.RESULTS.successful


def solve(run, kind):
    def fn(d):
        n = {"ts": 2, "subs": 2, "dt0": 0}[kind]
        dt0 = d["dt0"] if kind == "dt0" else None
        saveat = {"ts": lambda: dfx.SaveAt(ts=d["ts"]), "subs": lambda: dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), dict(a=dfx.SubSaveAt(t0=True, ts=d["ts"]))]), "dt0": lambda: dfx.SaveAt(t1=True)}[kind]()
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), dfx.Euler(), d["t0"], d["t1"], dt0, d["y0"], stepsize_controller=Once(), saveat=saveat, max_steps=2, throw=False)
        return dict(t=sol.t1)
    ins = dict(t0=In(), t1=In(), y0=In())
    ins |= dict(dt0=In()) if kind == "dt0" else dict(ts=In((3,)))

    def assumes(i):
        out = apart([i.t0[()], i.t1[()]] + (list(i.ts) if kind != "dt0" else []))
        out.append(S.le(S.absolute(i.y0[()]), 1))
        if kind == "dt0":
            out += apart([i.dt0[()], 0])
        return out

    def prop(i, o, op, err):
        t0, t1 = i.t0[()], i.t1[()]
        if kind == "dt0":
            bad = S.lt(S.mul(S.sub(t1, t0), i.dt0[()]), 0)
        else:
            fwd = S.lt(t0, t1)
            seq = lambda xs: AND(*[S.le(a, b) for a, b in zip(xs, xs[1:])])
            a = [t0] + list(i.ts) + [t1]
            bad = NOT(S.ite(fwd, seq(a), seq(a[::-1])))
        return [("refused-iff-invalid", op.iff(err, bad))]
    run.case(f"solve-{kind}", fn, ins, prop, assumes, errors="expose", fid=False, eps=EPS, while_bound=6, timeout=120)


def step_to(run):
    """the prescribed times must run from t0 to t1"""
    def fn(d):
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), dfx.Euler(), d["t0"], d["t1"], None, d["y0"], stepsize_controller=dfx.StepTo(d["ts"]), saveat=dfx.SaveAt(t1=True), max_steps=3, throw=False)
        return dict(t=sol.t1)

    def prop(i, o, op, err):
        t0, t1, ts = i.t0[()], i.t1[()], list(i.ts)
        up = AND(*[S.lt(a, b) for a, b in zip(ts, ts[1:])])
        down = AND(*[S.lt(b, a) for a, b in zip(ts, ts[1:])])
        good = AND(S.ite(S.lt(t0, t1), up, down), S.eq(ts[0], t0), S.eq(ts[-1], t1))
        return [("refused-iff-invalid", op.iff(err, NOT(good)))]
    run.case("step-to", fn, dict(t0=In(), t1=In(), y0=In(), ts=In((3,))), prop, lambda i: apart([i.t0[()], i.t1[()]] + list(i.ts)) + [NOT(S.eq(i.t0[()], i.t1[()])), S.le(S.absolute(i.y0[()]), 1)],
             errors="expose", fid=False, eps=EPS, while_bound=6, timeout=120)


def brownian(run):
    """refused exactly outside of the range"""
    from .gauss import Gauss
    for kind in ("range", "query", "increment"):
        G = Gauss()

        def fn(d, kind=kind):
            if kind == "range":
                p = dfx.VirtualBrownianTree(d["a"], d["b"], jnp.inf, (), jax.random.key(0))
                return dict(t0=p.t0)
            p = dfx.VirtualBrownianTree(0.5, 2.5, 4.0, (), jax.random.key(0))
            return dict(w=p.evaluate(d["a"]) if kind == "query" else p.evaluate(d["a"], d["b"]))

        def prop(i, o, op, err, kind=kind):
            a, b = i.a[()], i.b[()]
            inside = lambda x: AND(S.le(F(1, 2), x), S.le(x, F(5, 2)))
            bad = {"range": lambda: NOT(S.lt(a, b)), "query": lambda: NOT(inside(a)), "increment": lambda: NOT(AND(inside(a), inside(b)))}[kind]()
            return [("refused-iff-invalid", op.iff(err, bad))]
        run.case(f"brownian-{kind}", fn, dict(a=In(), b=In()), prop, lambda i: apart([i.a[()], i.b[()], F(1, 2), F(5, 2)]), errors="expose", fid=False, eps=EPS, handlers=G.handlers(), while_bound=6)


def langevin(run):
    """drift and diffusion must agree on friction and damping"""
    def fn(d):
        dr = dfx.UnderdampedLangevinDriftTerm(d["g"][0], d["u"][0], lambda x, a: x)
        di = dfx.UnderdampedLangevinDiffusionTerm(d["g"][1], d["u"][1], dfx.UnsafeBrownianPath((2,), jax.random.key(0), levy_area=dfx.SpaceTimeLevyArea))
        s = dfx.ALIGN(taylor_threshold=100.0)
        y = (jnp.zeros(2), jnp.zeros(2))
        st = s.init(dfx.MultiTerm(dr, di), 0.0, 0.5, y, None)
        return dict(state=jax.tree_util.tree_leaves(st))

    def prop(i, o, op, err):
        same = AND(*[S.eq(a, b) for k in "gu" for a, b in zip(i[k][0], i[k][1])])
        return [("refused-iff-contradictory", op.iff(err, NOT(same)))]
    run.case("langevin", fn, dict(g=In((2, 2)), u=In((2, 2))), prop, lambda i: [c for k in "gu" for a, b in zip(i[k][0], i[k][1]) for c in apart([a, b]) + [S.lt(GAP, a), S.lt(GAP, b)]], errors="expose", fid=False)


def missing(run):
    """data at times that are not a number"""
    n = 3
    for nm, f in [("linear", lambda ts, y: dfx.linear_interpolation(ts, y)), ("rectilinear", lambda ts, y: dfx.rectilinear_interpolation(ts, y)),
                  ("hermite", lambda ts, y: dfx.backward_hermite_coefficients(ts, y))]:
        def fn(d, f=f):
            return f(jnp.where(d["miss"], jnp.nan, d["ts"]), d["y"])

        def prop(i, o, op, err):
            inc = AND(*[S.lt(a, b) for a, b in zip(i.ts, list(i.ts)[1:])])
            return [("refused-iff-not-increasing", op.iff(err, NOT(AND(inc, *[NOT(m) for m in i.miss]))))]
        run.case("missing-" + nm, fn, dict(ts=In((n,)), y=In((n,)), miss=In((n,), "bool")), prop, lambda i: apart(list(i.ts)) + [S.le(S.absolute(y), 16) for y in i.y],
                 errors="expose", fid=False, div_ext=True, timeout=120)


def run(run):
    run.bounds = ["three save times (one or two groups of them), any order; t0, t1 in any order or equal; one step", "data at three times", "a Brownian tree on [0.5,2.5]; its range and both query times anywhere",
                  "all times in [-16,16], equal or at least 2^-20 apart"]
    for kind in ("ts", "subs", "dt0"):
        solve(run, kind)
    step_to(run)
    brownian(run)
    langevin(run)
    missing(run)
