"""C01: saved output. C02: tiling/termination/statistics. C03: rejected steps leave no trace."""
import math
from fractions import Fraction
import jax.numpy as jnp
import diffrax as dfx
from vk import scalar as S
from .loop import Loop, Trace, EPS


# ------------------------------------------------------------------ C02
def tiling(cfg):
    def prop(i, o, op):
        tr = Trace(cfg, i, o, op)
        N = cfg.N
        out = []
        eq, AND, IMP = op.eq, S.band, S.implies
        out.append(("first-step-starts-at-t0", IMP(tr.exec[0], eq(tr.t0[0], tr.T0))))
        out.append(("first-step-as-proposed", IMP(tr.exec[0], eq(tr.t1[0], S.minimum(S.add(tr.T0, i.h0[()]), tr.T1)))))
        out.append(("at-least-one-step", S.lt(0, tr.n)))
        out.append(("at-most-max-steps", S.le(tr.n, N)))
        out.append(("steps=acc+rej", S.eq(tr.n, S.add(o["n"]["acc"][()], o["n"]["rej"][()]))))
        out.append(("acc-count", S.eq(o["n"]["acc"][()], tr.nacc)))
        for j in range(N):
            out.append((f"forward-{j}", IMP(tr.exec[j], AND(op.lt(tr.t0[j], tr.t1[j]), op.le(tr.t1[j], tr.T1)))))
        floor_hi = S.sub(tr.T1, 40 * EPS)   # certainly clipped above this
        floor_lo = S.sub(tr.T1, 400 * EPS)  # certainly not clipped below this
        for j in range(N - 1):
            nx = tr.exec[j + 1]
            start = S.minimum(S.ite(tr.keep[j], S.add(tr.t1[j], i.DEL[j]), tr.t0[j]), tr.T1)
            ask = S.add(start, i.DT[j])
            out.append((f"contiguous-{j}", IMP(AND(nx, tr.keep[j]), eq(tr.t0[j + 1], start))))
            out.append((f"retry-same-start-{j}", IMP(AND(nx, S.bnot(tr.keep[j])), eq(tr.t0[j + 1], tr.t0[j]))))
            out.append((f"as-proposed-{j}", IMP(AND(nx, S.le(ask, floor_lo)), eq(tr.t1[j + 1], ask))))
            out.append((f"clip-to-t1-{j}", IMP(AND(nx, tr.keep[j], S.ge(ask, floor_hi)), eq(tr.t1[j + 1], tr.T1))))
            out.append((f"retry-shrinks-at-end-{j}", IMP(AND(nx, S.bnot(tr.keep[j]), S.ge(ask, floor_hi)), S.lt(tr.t1[j + 1], tr.T1))))
            # stops as soon as (and only when) t1 has been reached
            reached = AND(tr.keep[j], S.ge(S.add(tr.t1[j], i.DEL[j]), tr.T1))
            out.append((f"stops-iff-reached-{j}", IMP(tr.exec[j], S.bnot(S.bxor(nx, S.bnot(reached))))))
        # outcome
        for j in range(N):
            last = S.eq(tr.n, j + 1)
            reached = AND(tr.keep[j], S.ge(S.add(tr.t1[j], i.DEL[j]), tr.T1))
            out.append((f"success-iff-reached-{j}", IMP(last, S.bnot(S.bxor(reached, o["res"]["successful"][()])))))
            out.append((f"maxsteps-iff-not-{j}", IMP(last, S.bnot(S.bxor(S.bnot(reached), o["res"]["max_steps_reached"][()])))))
            end_t = S.ite(tr.keep[j], S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), tr.t0[j])
            end_y = S.ite(tr.keep[j], tr.y1[j], tr.y0[j])
            out.append((f"final-time-{j}", IMP(last, eq(S.mul(tr.sg, o["ts"][-1]), end_t))))
            out.append((f"final-time-is-t1-{j}", IMP(AND(last, reached), op.eq(o["ts"][-1], i.t1[()]))))
            out.append((f"final-value-{j}", IMP(last, eq(o["ys"][-1], end_y))))
        return out
    return prop


# ------------------------------------------------------------------ C03
def rejected(cfg):
    def prop(i, o, op):
        tr = Trace(cfg, i, o, op)
        N = cfg.N
        eq, AND, IMP = op.eq, S.band, S.implies
        out = []
        D, G = list(i.D), list(i.G)
        mj = i.MJ0[()] if cfg.mj0 else False
        s_exp, y_exp = i.s0[()], i.y0[()]
        t_exp = tr.T0
        for j in range(N):
            ex = tr.exec[j]
            Dk, Gk = tr.pick(D, tr.k[j]), tr.pick(G, tr.k[j])
            out.append((f"state-in-{j}", IMP(ex, eq(tr.y0[j], y_exp))))
            out.append((f"solver-state-in-{j}", IMP(ex, eq(tr.err[j], S.add(s_exp, Dk)))))
            out.append((f"time-in-{j}", IMP(ex, eq(tr.t0[j], t_exp))))
            inc = S.add(Dk, S.sub(tr.t1[j], tr.t0[j]))
            if cfg.jump or cfg.mj0:
                inc = S.add(inc, S.ite(mj, Gk, 0))
            out.append((f"candidate-{j}", IMP(ex, eq(tr.y1[j], S.add(tr.y0[j], inc)))))
            a = tr.acc[j]
            y_exp = S.ite(a, tr.y1[j], y_exp)
            s_exp = S.ite(a, S.add(S.add(s_exp, Dk), tr.t1[j]), s_exp)
            t_exp = S.ite(a, S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), t_exp)
            mj = S.ite(a, i.JUMP[j] if cfg.jump else False, mj)
        out.append(("final-y", eq(o["ys"][-1], y_exp)))
        out.append(("final-t", eq(S.mul(tr.sg, o["ts"][-1]), t_exp)))
        out.append(("final-solver-state", eq(o["ss"][1][()], s_exp)))
        out.append(("final-solver-count", S.eq(o["ss"][0][()], tr.nacc)))
        if o["mj"] is not None:
            out.append(("final-made-jump", S.eq(o["mj"][()], mj)))
        return out
    return prop


# ------------------------------------------------------------------ C01
def saved(cfg, spec, get=lambda o: (o["ts"], o["ys"]), fnval=None, leaf=lambda ys: ys):
    """spec: dict(t0=bool, ts=[index list into i.ts] , steps=n, t1=bool)"""
    fnval = fnval or (lambda t, y: y)

    def prop(i, o, op):
        tr = Trace(cfg, i, o, op)
        N = cfg.N
        ots, oys = get(o)
        ots, oys = list(ots), list(leaf(oys))
        eq, AND, IMP = op.eq, S.band, S.implies
        ev = []  # (label, present, internal time, y)
        if spec.get("t0"):
            ev.append(("t0", True, tr.T0, i.y0[()]))
        tsidx = spec.get("ts", [])
        ts = [S.mul(tr.sg, i.ts[m]) for m in tsidx]
        n = spec.get("steps", 0)
        prev_end = None
        if cfg.equal:
            for m, t in enumerate(ts):
                ev.append((f"ts{m}", True, tr.T0, i.y0[()]))
        covered_any = [False] * len(ts)
        last_end = tr.T0
        for j in range(0 if cfg.equal else N):
            a = tr.acc[j]
            for m, t in enumerate(ts):
                inside = AND(a, S.le(t, tr.t1[j]), S.bnot(covered_any[m]))
                ev.append((f"ts{m}@{j}", inside, t, tr.interp(j, t, tr.s_in(j), tr.k[j])))
                covered_any[m] = S.bor(covered_any[m], inside)
            end_t = S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1)
            if n:
                cnt = S.add(tr.k[j], 1)
                on = S.bor(*[S.eq(cnt, q) for q in range(n, N + 1, n)])
                ev.append((f"step@{j}", AND(a, on), end_t, tr.y1[j]))
            last_end = S.ite(a, end_t, last_end)
        if spec.get("t1"):
            yl = i.y0[()]
            for j in range(0 if cfg.equal else N):
                yl = S.ite(tr.acc[j], tr.y1[j], yl)
            if n:
                via = S.bor(*[S.eq(tr.nacc, q) for q in range(n, N + 1, n)])
            else:
                via = False
            ev.append(("t1", S.bnot(via), last_end, yl))
        out = []
        pos = 0
        for (l, pres, t, y) in ev:
            ut = S.mul(tr.sg, t)
            for q in range(len(ots)):
                c = AND(pres, S.eq(pos, q))
                if c is False:
                    continue
                out.append((f"{l}->t[{q}]", IMP(c, eq(ots[q], ut))))
                out.append((f"{l}->y[{q}]", IMP(c, eq(oys[q], fnval(ut, y)))))
            out.append((f"{l}-fits", IMP(pres, S.lt(pos, len(ots)))))
            pos = S.add(pos, S.ite(pres, 1, 0))
        for q in range(len(ots)):
            c = S.le(pos, q)
            out.append((f"pad-t[{q}]", IMP(c, eq(ots[q], math.inf))))
            out.append((f"pad-y[{q}]", IMP(c, S.bor(S.bnot(S.is_finite(oys[q])), op.eq(oys[q], fnval(math.inf, math.inf)) if False else S.bnot(S.is_finite(oys[q]))))))
        return out
    return prop


def run_c01(run):
    fn = lambda t, y, args: y + 11 * t
    fv = lambda t, y: S.add(y, S.mul(11, t))
    cs = dict(controller_state=True)
    q = run.quick
    N = 3 if q else 4
    V = []
    SA = dfx.SaveAt
    V.append(("ts", Loop(N, 2, saveat=lambda d: SA(ts=d["ts"], **cs)), dict(ts=[0, 1]), None))
    V.append(("ts-3", Loop(N, 3, saveat=lambda d: SA(ts=d["ts"], **cs)), dict(ts=[0, 1, 2]), None))
    V.append(("t0-ts-t1", Loop(N, 2, saveat=lambda d: SA(t0=True, ts=d["ts"], t1=True, **cs)), dict(t0=1, ts=[0, 1], t1=1), None))
    V.append(("t0-steps", Loop(N, saveat=lambda d: SA(t0=True, steps=True, **cs)), dict(t0=1, steps=1), None))
    V.append(("steps2-t1", Loop(3, saveat=lambda d: SA(steps=2, t1=True, **cs)), dict(steps=2, t1=1), None))
    V.append(("steps2-t1-even", Loop(4, saveat=lambda d: SA(steps=2, t1=True, **cs)), dict(steps=2, t1=1), None))
    V.append(("steps3-t0", Loop(4, saveat=lambda d: SA(steps=3, t0=True, **cs)), dict(steps=3, t0=1), None))
    V.append(("all-fn", Loop(N, 1, saveat=lambda d: SA(t0=True, ts=d["ts"], steps=True, t1=True, fn=fn, **cs)), dict(t0=1, ts=[0], steps=1, t1=1), fv))
    V.append(("rev-all-fn", Loop(N, 1, rev=True, saveat=lambda d: SA(t0=True, ts=d["ts"], steps=2, t1=True, fn=fn, **cs)), dict(t0=1, ts=[0], steps=2, t1=1), fv))
    V.append(("rev-ts-steps", Loop(N, 2, rev=True, saveat=lambda d: SA(ts=d["ts"], steps=True, **cs)), dict(ts=[0, 1], steps=1), None))
    V.append(("equal", Loop(2, 2, equal=True, saveat=lambda d: SA(t0=True, ts=d["ts"], t1=True, fn=fn, **cs)), dict(t0=1, ts=[0, 1], t1=1), fv))
    for name, cfg, spec, fvv in V:
        run.case(name, cfg.fn, cfg.inputs(), saved(cfg, spec, fnval=fvv), cfg.assumes, eps=EPS, errors="forbid", timeout=200,
                 covers=None if cfg.equal else lambda i, o, op: [("some-reject", S.band(S.bnot(i.KEEP[0]), i.KEEP[1], o["res"]["successful"][()]))])
    # several sub-outputs
    cfg = Loop(N, 1, saveat=lambda d: SA(subs=dict(p=dfx.SubSaveAt(ts=d["ts"], fn=fn), q=[dfx.SubSaveAt(t0=True, steps=2), dfx.SubSaveAt(t1=True)]), **cs))
    for nm, spec, get, fvv in [
        ("p", dict(ts=[0]), lambda o: (o["ts"]["p"], o["ys"]["p"]), fv),
        ("q0", dict(t0=1, steps=2), lambda o: (o["ts"]["q"][0], o["ys"]["q"][0]), None),
        ("q1", dict(t1=1), lambda o: (o["ts"]["q"][1], o["ys"]["q"][1]), None),
    ]:
        run.case("subs-" + nm, cfg.fn, cfg.inputs(), saved(cfg, spec, get, fvv), cfg.assumes, eps=EPS, errors="forbid", timeout=200)


def run_c02(run):
    cs = dict(controller_state=True)
    N = 4 if run.quick else 6
    for nm, cfg in [
        ("fwd", Loop(N, saveat=lambda d: dfx.SaveAt(t1=True, **cs))),
        ("rev", Loop(N, rev=True, saveat=lambda d: dfx.SaveAt(t1=True, **cs))),
    ]:
        run.case(nm, cfg.fn, cfg.inputs(), tiling(cfg), cfg.assumes, eps=EPS, errors="forbid", timeout=300)


def run_c03(run):
    N = 3 if run.quick else 5
    sa = lambda d: dfx.SaveAt(t1=True, controller_state=True, solver_state=True, made_jump=True)
    for nm, cfg in [
        ("jump", Loop(N, saveat=sa, mj0=True)),
        ("nojump", Loop(N, saveat=sa, jump=False)),
        ("rev", Loop(N, saveat=sa, rev=True)),
    ]:
        run.case(nm, cfg.fn, cfg.inputs(), rejected(cfg), cfg.assumes, eps=EPS, errors="forbid", timeout=300)
