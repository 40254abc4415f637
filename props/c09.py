"""C09: events end the solve at the right step / root, with the right mask, and leave nothing saved after the event."""
import math
from fractions import Fraction
import jax.numpy as jnp
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from vk.stubs import SymRoot
from .loop import Loop, Trace, EPS

TOL2 = Fraction(1, 2**19)

# (name, kind, python function for the real code, exact twin)
G = {
    "f1": ("float", lambda t, y, args, **kw: y - 3 * t, lambda t, y: S.sub(y, S.mul(3, t))),
    "f2": ("float", lambda t, y, args, **kw: 5 - y - t, lambda t, y: S.sub(S.sub(5, y), t)),
    "b1": ("bool", lambda t, y, args, **kw: y + t > 4, lambda t, y: S.lt(4, S.add(y, t))),
    "b2": ("bool", lambda t, y, args, **kw: y - t < -4, lambda t, y: S.lt(S.sub(y, t), -4)),
}


def crosses(direction, a, b):
    """direction: None/True/False; a -> b"""
    pos, neg, zero = (lambda x: S.lt(0, x)), (lambda x: S.lt(x, 0)), (lambda x: S.eq(x, 0))
    if direction is None:
        same = S.bor(S.band(pos(a), pos(b)), S.band(neg(a), neg(b)), S.band(zero(a), zero(b)))
        return S.bnot(same)
    if direction:
        return S.band(S.bnot(pos(a)), pos(b))
    return S.band(pos(a), S.bnot(pos(b)))


class EvLoop(Loop):
    def __init__(self, names, direction=None, root=False, tree=None, spec=None, consistent=False, **kw):
        self.names, self.root, self.spec, self.consistent = names, root, spec or dict(t1=1), consistent
        self.dirs = direction if isinstance(direction, list) else [direction] * len(names)
        self.tree = tree or (lambda xs: list(xs))

        def event(d):
            fns = self.tree([G[n][1] for n in names])
            dr = direction if not isinstance(direction, list) else self.tree(direction)
            return dfx.Event(fns, SymRoot(d["R"]) if root else None, direction=dr)

        super().__init__(event=event, **kw)

    def inputs(self):
        inp = super().inputs()
        if self.root:
            inp["R"] = In()
        return inp


def events(cfg):
    def prop(i, o, op, err=None):
        tr = Trace(cfg, i, o, op)
        N, n_ev = cfg.N, len(cfg.names)
        AND, IMP, NOT, OR = S.band, S.implies, S.bnot, S.bor
        iff, eq = op.iff, op.eq
        sg = tr.sg
        out = []
        flags = {k: v[()] for k, v in o["res"].items()}
        vals = [G[n][2](i.t0[()], i.y0[()]) for n in cfg.names]
        trig0 = [v if G[n][0] == "bool" else False for n, v in zip(cfg.names, vals)]
        any0 = OR(*trig0)
        trigs = []
        for j in range(N):
            end_t = S.ite(tr.keep[j], S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), tr.t0[j])
            end_y = S.ite(tr.keep[j], tr.y1[j], tr.y0[j])
            new = [G[n][2](S.mul(sg, end_t), end_y) for n in cfg.names]
            trigs.append([v if G[n][0] == "bool" else crosses(dr, w, v) for n, dr, w, v in zip(cfg.names, cfg.dirs, vals, new)])
            vals = new
        anyt = [OR(*t) for t in trigs]
        reach = [AND(tr.keep[j], S.ge(S.add(tr.t1[j], i.DEL[j]), tr.T1)) for j in range(N)]
        fail = [AND(tr.keep[j], S.lt(0, tr.pick(list(i.RS), tr.k[j]))) if cfg.rs else False for j in range(N)]
        R = i.R[()] if cfg.root else None
        mask = [m[()] for m in jtleaves(o["mask"])]
        nzero = S.eq(tr.n, 0)
        out.append(("no-steps-iff-event-at-start", iff(nzero, any0)))

        def first(ts):
            r, had = [], False
            for t in ts:
                r.append(AND(t, NOT(had)))
                had = OR(had, t)
            return r

        def ends(cond, label, trig, tend, j):
            """facts when the solve ended with trig (list) at this point"""
            f = first(trig)
            for m in range(n_ev):
                out.append((f"{label}-mask{m}", IMP(cond, iff(mask[m], f[m]))))

        ends(nzero, "start", trig0, tr.T0, None)
        for j in range(N):
            last = S.eq(tr.n, j + 1)
            if j + 1 < N:
                out.append((f"continues-iff-{j}", IMP(tr.exec[j], iff(tr.exec[j + 1], NOT(OR(fail[j], reach[j], anyt[j]))))))
            ends(last, f"step{j}", trigs[j], None, j)
            out.append((f"failure-not-masked-{j}", IMP(AND(last, fail[j]), NOT(OR(flags["event_occurred"], flags["successful"])))))
            okj = AND(last, NOT(fail[j]))
            if not cfg.root:
                out.append((f"event-result-{j}", IMP(okj, iff(flags["event_occurred"], anyt[j]))))
            else:
                out.append((f"event-result-{j}", IMP(AND(okj, flags["event_occurred"]), anyt[j])))
                out.append((f"event-not-success-{j}", IMP(AND(okj, anyt[j]), NOT(flags["successful"]))))
            out.append((f"success-{j}", IMP(okj, iff(flags["successful"], AND(reach[j], NOT(anyt[j]))))))
        # where the solve ends
        tf, yf = tr.T0, i.y0[()]
        okroot = True
        for j in range(N):
            last = S.eq(tr.n, j + 1)
            end_t = S.ite(tr.keep[j], S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), tr.t0[j])
            end_y = S.ite(tr.keep[j], tr.y1[j], tr.y0[j])
            if cfg.root:
                # R is in internal time
                yR = tr.interp(j, R, tr.s_in(j), tr.k[j])
                f = first(trigs[j])
                ev = AND(last, flags["event_occurred"])
                out.append((f"root-in-step-{j}", IMP(ev, AND(op.le(tr.t0[j], R), op.le(R, tr.t1[j])))))
                for m, n in enumerate(cfg.names):
                    if G[n][0] == "bool":
                        gap = S.sub(tr.t1[j], R)
                    else:
                        gap = G[n][2](S.mul(sg, R), yR)
                    out.append((f"root-is-root-{n}-{j}", IMP(AND(ev, f[m]), AND(op.le(gap, TOL2), op.le(-TOL2, gap)))))
                    # an exact root inside the step is never refused
                    if G[n][0] == "float":
                        good = AND(last, NOT(fail[j]), f[m], S.eq(gap, 0), S.le(tr.t0[j], R), S.le(R, tr.t1[j]))
                    else:
                        good = AND(last, NOT(fail[j]), f[m], S.eq(R, tr.t1[j]))
                    out.append((f"root-accepted-{n}-{j}", IMP(good, flags["event_occurred"])))
                tf = S.ite(AND(last, anyt[j]), R, S.ite(last, end_t, tf))
                yf = S.ite(AND(last, anyt[j]), yR, S.ite(last, end_y, yf))
            else:
                tf = S.ite(last, end_t, tf)
                yf = S.ite(last, end_y, yf)
        if cfg.root:
            out.append(("start-event-time", IMP(AND(nzero, flags["event_occurred"]), op.eq(R, tr.T0))))
            # only speak about the output if root finding succeeded
            judge = OR(flags["event_occurred"], flags["successful"], flags["max_steps_reached"])
        else:
            judge = True
        # saved output
        spec = cfg.spec
        ots, oys = list(o["ts"]), list(o["ys"])
        ev = []
        if spec.get("t0"):
            ev.append(("t0", True, tr.T0, i.y0[()]))
        ts = [S.mul(sg, i.ts[m]) for m in spec.get("ts", [])]
        done = [False] * len(ts)
        n = spec.get("steps", 0)
        lastsaved = False
        for j in range(N):
            a = tr.acc[j]
            for m, t in enumerate(ts):
                ins = AND(a, S.le(t, tr.t1[j]), NOT(done[m]))
                ev.append((f"ts{m}@{j}", AND(ins, S.le(t, tf)), t, tr.interp(j, t, tr.s_in(j), tr.k[j])))
                done[m] = OR(done[m], ins)
            end_t = S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1)
            if n:
                on = OR(*[S.eq(S.add(tr.k[j], 1), q) for q in range(n, N + 1, n)])
                ev.append((f"step@{j}", AND(a, on, S.le(end_t, tf)), end_t, tr.y1[j]))
        if n:
            via = AND(S.lt(0, tr.nacc), OR(*[S.eq(tr.nacc, q) for q in range(n, N + 1, n)]))
            # end of the last accepted step
            lend = tr.T0
            for j in range(N):
                lend = S.ite(tr.acc[j], S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), lend)
            deleted = S.lt(tf, lend)
            pres = OR(AND(via, deleted), AND(NOT(via), bool(spec.get("t1"))))
        else:
            pres = bool(spec.get("t1"))
        ev.append(("final", pres, tf, yf))
        pos = 0
        for (l, pr, t, y) in ev:
            if pr is False:
                continue
            for q in range(len(ots)):
                c = AND(judge, pr, S.eq(pos, q))
                if c is False:
                    continue
                out.append((f"{l}->t[{q}]", IMP(c, eq(ots[q], S.mul(sg, t)))))
                out.append((f"{l}->y[{q}]", IMP(c, eq(oys[q], y))))
            pos = S.add(pos, S.ite(pr, 1, 0))
        for q in range(len(ots)):
            c = AND(judge, S.le(pos, q))
            out.append((f"pad-t[{q}]", IMP(c, eq(ots[q], math.inf))))
            out.append((f"pad-y[{q}]", IMP(c, NOT(S.is_finite(oys[q])))))
        return out
    return prop


def jtleaves(x):
    import jax.tree_util as jtu
    return jtu.tree_leaves(x)


def run(run):
    N = 2 if run.quick else 3
    SA = dfx.SaveAt
    cs = dict(controller_state=True)
    t1 = lambda d: SA(t1=True, **cs)
    many = lambda d: SA(t0=True, ts=d["ts"], steps=True, t1=True, **cs)
    nest = lambda xs: dict(a=xs[0], b=(xs[1], [xs[2]]))
    C = []
    C.append(("float", EvLoop(["f1"], N=3, saveat=t1)))
    C.append(("float-up", EvLoop(["f1"], direction=True, N=3, saveat=t1)))
    C.append(("float-down-rev", EvLoop(["f1"], direction=False, N=3, saveat=t1, rev=True)))
    C.append(("bool", EvLoop(["b1"], N=3, saveat=t1)))
    C.append(("tree-mixed", EvLoop(["f1", "b1", "f2"], direction=[True, None, False], tree=nest, N=N, saveat=t1)))
    C.append(("mixed-fail", EvLoop(["b1", "f1"], N=2, saveat=t1, rs=True)))
    C.append(("float-saves", EvLoop(["f1"], N=N, nts=1, spec=dict(t0=1, ts=[0], steps=1, t1=1), saveat=many)))
    C.append(("root-float", EvLoop(["f1"], root=True, N=2, saveat=t1)))
    C.append(("root-float-rev", EvLoop(["f1"], root=True, N=2, saveat=t1, rev=True)))
    C.append(("root-two", EvLoop(["f2", "f1"], direction=[None, True], root=True, N=2, saveat=t1)))
    C.append(("root-bool", EvLoop(["b1"], root=True, N=2, saveat=t1)))
    C.append(("root-mixed", EvLoop(["b1", "f1"], root=True, N=2, saveat=t1)))
    C.append(("root-saves", EvLoop(["f1"], root=True, N=N, nts=2, spec=dict(t0=1, ts=[0, 1], t1=1), saveat=lambda d: SA(t0=True, ts=d["ts"], t1=True, **cs))))
    C.append(("root-steps", EvLoop(["f1"], root=True, N=N, spec=dict(steps=1), saveat=lambda d: SA(steps=True, **cs))))
    C.append(("root-steps-t1", EvLoop(["f1"], root=True, N=2, spec=dict(steps=2, t1=1), saveat=lambda d: SA(steps=2, t1=True, **cs))))
    C.append(("root-all-rev", EvLoop(["f1"], root=True, N=2, nts=1, rev=True, spec=dict(t0=1, ts=[0], steps=1, t1=1), saveat=many)))
    for nm, cfg in C:
        def covers(i, o, op):
            g = [("event-after-a-step", S.band(o["res"]["event_occurred"][()], S.eq(o["n"]["steps"][()], 2))),
                 ("no-event", o["res"]["successful"][()])]
            return g
        run.case(nm, cfg.fn, cfg.inputs(), events(cfg), cfg.assumes, eps=EPS, errors="forbid", timeout=120, covers=covers)
