"""C06: clipping controller: forced step locations, jumps skipped, rejected times revisited."""
import math
from fractions import Fraction as F
import numpy as np
import jax.numpy as jnp
import jax.tree_util as jtu
import diffrax as dfx
from diffrax import AbstractAdaptiveStepSizeController, RESULTS
from vk import scalar as S
from vk.harness import In
from vk.stubs import SymSolver, SymController, result_flags
from .loop import Loop, Trace, EPS


class SymAdaptive(AbstractAdaptiveStepSizeController):
    """nondeterministic adaptive controller (records like SymController)"""
    KEEP: object
    DT: object
    dt_init: object
    rtol: object = 1e-3
    atol: object = 1e-3
    norm: object = None

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return SymController.init(self, terms, t0, t1, y0, dt0, args, func, error_order)

    @property
    def _inner(self):
        return SymController(self.KEEP, self.DT, jnp.zeros(len(self.DT)), self.dt_init)

    def adapt_step_size(self, *a, **k):
        return self._inner.adapt_step_size(*a, **k)


class Clip:
    def __init__(self, N, nstep=0, njump=0, store=None, rev=False, nest=False):
        self.N, self.nstep, self.njump, self.store, self.rev, self.nest = N, nstep, njump, store, rev, nest
        self.jump, self.mj0, self.rs, self.rc = True, False, False, False

    def inputs(self):
        N = self.N
        inp = dict(D=In((N,)), G=In((N,)), t0=In(), t1=In(), y0=In(), KEEP=In((N,), "bool"), DT=In((N,)), h0=In())
        if self.nstep:
            inp["ST"] = In((self.nstep,))
        if self.njump:
            inp["JT"] = In((self.njump,))
        return inp

    def fn(self, d):
        N = self.N
        inner = SymAdaptive(d["KEEP"], d["DT"], d["h0"])
        if self.nest == "jumps":
            ctrl = dfx.ClipStepSizeController(dfx.ClipStepSizeController(inner, jump_ts=d["JT"][:1]), jump_ts=d["JT"][1:])
        elif self.nest:
            ctrl = dfx.ClipStepSizeController(dfx.ClipStepSizeController(inner, step_ts=d.get("ST")), jump_ts=d.get("JT"), store_rejected_steps=self.store)
        else:
            ctrl = dfx.ClipStepSizeController(inner, step_ts=d.get("ST"), jump_ts=d.get("JT"), store_rejected_steps=self.store)
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: y), SymSolver(d["D"], jnp.zeros(N), d["G"], 0.0), d["t0"], d["t1"], None, d["y0"],
            saveat=dfx.SaveAt(t1=True, controller_state=True, made_jump=True), stepsize_controller=ctrl,
            adjoint=dfx.ForwardMode(), max_steps=N, throw=False)
        # the recording of the nondeterministic controller, wherever the wrapper keeps it
        rec = find_rec(sol.controller_state)
        return dict(rec=rec, n=dict(steps=sol.stats["num_steps"]), ts=sol.ts, ys=sol.ys, mj=sol.made_jump,
                    res=result_flags(sol.result), over=sol.result == RESULTS.max_steps_rejected, internal=sol.result == RESULTS.internal_error)

    def assumes(self, i):
        sg = -1 if self.rev else 1
        T0, T1 = S.mul(sg, i.t0[()]), S.mul(sg, i.t1[()])
        out = [S.lt(S.add(T0, 10**6 * EPS), T1)]
        out.append(S.lt(i.t0[()], i.t1[()]) if not self.rev else S.bnot(S.lt(i.t0[()], i.t1[()])))
        gap = 1000 * EPS
        out += [S.lt(gap, x) for x in i.DT] + [S.lt(gap, i.h0[()])]
        pts = [S.mul(sg, x) for nm in ("ST", "JT") if hasattr(i, nm) for x in i[nm]]
        far = lambda a, b: S.bor(S.lt(S.add(a, gap), b), S.lt(S.add(b, gap), a))
        for k, p in enumerate(pts):
            out += [far(p, T0), far(p, T1)]
            for q in pts[k + 1:]:
                out.append(S.bor(S.eq(p, q), far(p, q)) if self.nest is True else far(p, q))
        return out

    def extra(self, enc):
        """no proposal lands within rounding of a special time, unless exactly on it"""
        i, o = enc.I, enc.O
        tr = Trace(self.asloop(), with_del(i, self.N), o, None)
        sg = tr.sg
        gap = 1000 * EPS
        out = []
        pts = [S.mul(sg, x) for nm in ("ST", "JT") if hasattr(i, nm) for x in i[nm]] + [tr.T1]
        far = lambda a, b: S.bor(S.lt(S.add(a, gap), b), S.lt(S.add(b, gap), a))
        first = S.add(tr.T0, i.h0[()])
        props = [first]
        for j in range(self.N):
            st = S.ite(tr.keep[j], tr.t1[j], tr.t0[j])
            props.append(S.add(st, i.DT[j]))
        for p in props:
            for q in pts:
                out.append(S.bor(S.eq(p, q), far(p, q)))
        if self.store:
            for j in range(self.N):
                for p in props:
                    out.append(S.bor(S.eq(p, tr.t1[j]), far(p, tr.t1[j])))
        return [x for x in out if x is not True]

    def asloop(self):
        return self


def with_del(i, N):
    class V:
        pass
    v = V()
    v.__dict__.update(i.__dict__)
    v.DEL = [0] * N
    v.__class__.__getitem__ = lambda s, k: s.__dict__[k]
    return v


def find_rec(state):
    import equinox as eqx
    found = []

    def walk(x):
        if isinstance(x, dict) and set(x) == {"j", "t0", "t1", "y0", "y1", "err"}:
            found.append(x)
        elif isinstance(x, eqx.Module):
            for v in vars(x).values():
                walk(v)
        elif isinstance(x, (tuple, list)):
            for v in x:
                walk(v)
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)
    walk(state)
    return found[0]


def ulp(op, t, up):
    if op.replay:
        f = float(t)
        return S.from_float(np.nextafter(f, math.inf if up else -math.inf))
    return S.add(t, EPS) if up else S.sub(t, EPS)


def clipprop(cfg):
    def prop(i, o, op):
        iv = with_del(i, cfg.N)
        tr = Trace(cfg, iv, o, op)
        N, sg = cfg.N, tr.sg
        AND, OR, NOT, IMP = S.band, S.bor, S.bnot, S.implies
        eq = op.eq
        ex_eq = S.eq  # exact: these times are promised exactly
        out = []
        ST = [S.mul(sg, x) for x in i.ST] if cfg.nstep else []
        JT = [S.mul(sg, x) for x in i.JT] if cfg.njump else []
        out.append(("no-internal-error", NOT(o["internal"][()])))
        mj = False  # made_jump seen by attempt j
        rejected = []  # (present, time)
        Gs = list(i.G)
        for j in range(N):
            ex, a, b = tr.exec[j], tr.t0[j], tr.t1[j]
            out.append((f"forward-{j}", IMP(ex, S.lt(a, b))))
            for m, s in enumerate(ST):
                dup = OR(*[S.eq(s, x) for x in JT]) if cfg.nest is True else False
                out.append((f"step_ts{m}-not-crossed-{j}", IMP(AND(ex, NOT(dup)), NOT(AND(S.lt(a, s), S.lt(s, b))))))
            for m, s in enumerate(JT):
                out.append((f"jump_ts{m}-not-touched-{j}", IMP(ex, NOT(AND(S.le(a, s), S.le(s, b))))))
            for (pr, t, q) in rejected:
                out.append((f"rejected{q}-not-crossed-{j}", IMP(AND(ex, pr, S.lt(a, t)), S.le(b, t))))
            # made_jump flag seen by the solver: y1 - y0 - D - (b-a) = [jump] G
            inc = S.sub(S.sub(tr.y1[j], tr.y0[j]), S.add(tr.pick(list(i.D), tr.k[j]), S.sub(b, a)))
            out.append((f"made-jump-{j}", IMP(ex, eq(inc, S.ite(mj, tr.pick(Gs, tr.k[j]), 0)))))
            # what happens next
            before = [AND(tr.keep[j], ex_eq(b, ulp(op, s, False))) for s in JT]
            jumped = OR(*before)
            start = S.ite(tr.keep[j], b, a)
            for s, bf in zip(JT, before):
                start = S.ite(bf, ulp(op, s, True), start)
            mj = S.ite(tr.acc[j], jumped, mj)
            if cfg.store:
                rejected = [(AND(pr, NOT(AND(ex, ex_eq(b, t)))), t, q) for pr, t, q in rejected] + [(AND(ex, NOT(tr.keep[j])), b, j)]
            if j + 1 < N:
                nx = tr.exec[j + 1]
                out.append((f"next-start-{j}", IMP(nx, ex_eq(tr.t0[j + 1], start))))
                # next end: the proposal unless something forces a shorter step
                want = S.add(S.ite(tr.keep[j], b, a), i.DT[j])
                lim = []
                for s in ST:
                    lim.append((S.lt(start, s), s))
                for s in JT:
                    lim.append((S.lt(start, s), ulp(op, s, False)))
                for pr, t, q in rejected:
                    lim.append((AND(pr, S.lt(start, t)), t))
                e = want
                for c, t in lim:
                    e = S.ite(AND(c, S.lt(t, e)), t, e)
                inside = S.lt(S.add(e, 500 * EPS), tr.T1)
                if cfg.nest is True:
                    dup = OR(*[S.eq(s, x) for s in ST for x in JT])
                    inside = AND(inside, NOT(dup))
                out.append((f"next-end-{j}", IMP(AND(nx, inside), eq(tr.t1[j + 1], e))))
                out.append((f"next-end-not-beyond-{j}", IMP(AND(nx, tr.keep[j]), op.le(tr.t1[j + 1], S.maximum(e, S.ite(S.lt(S.sub(tr.T1, 200 * EPS), e), tr.T1, e))))))
            reach = AND(tr.keep[j], S.ge(b, tr.T1))
            if not cfg.store:
                last = S.eq(tr.n, j + 1)
                out.append((f"success-{j}", IMP(last, op.iff(o["res"]["successful"][()], reach))))
        # first step
        e = S.add(tr.T0, i.h0[()])
        for s in ST:
            e = S.ite(AND(S.lt(tr.T0, s), S.lt(s, e)), s, e)
        for s in JT:
            e = S.ite(AND(S.lt(tr.T0, s), S.lt(ulp(op, s, False), e)), ulp(op, s, False), e)
        e = S.minimum(e, tr.T1)
        out.append(("first-end", IMP(tr.exec[0], eq(tr.t1[0], e))))
        out.append(("first-start", IMP(tr.exec[0], ex_eq(tr.t0[0], tr.T0))))
        out.append(("final-made-jump", op.iff(o["mj"][()], mj) if not isinstance(o["mj"], bool) else True))
        if cfg.store:
            # overflow is reported iff more than `store` rejected times are pending
            cnt, over = 0, False
            pend = []
            for j in range(N):
                ex, b = tr.exec[j], tr.t1[j]
                pend = [(AND(pr, NOT(AND(ex, ex_eq(b, t)))), t) for pr, t in pend] + [(AND(ex, NOT(tr.keep[j])), b)]
                c = 0
                for pr, t in pend:
                    c = S.add(c, S.ite(pr, 1, 0))
                over = OR(over, S.lt(cfg.store, c))
                out.append((f"overflow-stops-{j}", IMP(AND(ex, S.lt(cfg.store, c)), S.eq(tr.n, j + 1))))
            out.append(("overflow-iff", op.iff(o["over"][()], over)))
        return out
    return prop


def run(run):
    q = run.quick
    N = 3 if q else 4
    for nm, cfg in [
        ("step", Clip(N, nstep=2)),
        ("jump", Clip(N, njump=2 if not q else 1)),
        ("jump-two", Clip(2 if q else 3, njump=2)),
        ("step-jump", Clip(2 if q else 3, nstep=1, njump=1)),
        ("step-jump-rev", Clip(2 if q else 3, nstep=1, njump=1, rev=True)),
        ("step-rev", Clip(2 if q else 3, nstep=2, rev=True)),
        ("jump-rev", Clip(2 if q else 3, njump=2, rev=True)),
        ("nested-same-time", Clip(2 if q else 3, nstep=1, njump=1, nest=True)),
        ("nested-jumps", Clip(2 if q else 3, njump=2, nest="jumps")),
        ("store", Clip(4 if q else 5, store=2)),
        ("store-overflow", Clip(3, store=1)),
        ("store-jump", Clip(3, njump=1, store=2)),
        ("store-step", Clip(3, nstep=1, store=2)),
    ]:
        run.case(nm, cfg.fn, cfg.inputs(), clipprop(cfg), cfg.assumes, extra=cfg.extra, eps=EPS, errors="forbid", timeout=120, prune=True,
                 while_bound=N + 4)
