"""C10: dense output over the whole solve: any time within the solved range gets the interpolant of the accepted step containing it,
differences and derivatives agree with that, anything outside is NaN."""
import math
import jax.numpy as jnp
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from .loop import Loop, Trace, EPS

AND, OR, NOT, IMP = S.band, S.bor, S.bnot, S.implies


class Dense(Loop):
    def __init__(self, *a, tree=False, **kw):
        self.tree = tree
        if tree:
            kw["y0"] = lambda d: {"a": d["y0"], "b": [d["y0"] + 1.0]}
        super().__init__(*a, jump=False, saveat=lambda d: dfx.SaveAt(dense=True, t1=True, controller_state=True), post=self.query, **kw)

    def query(self, sol, d):
        te, tf = d["te"], d["tf"]
        if self.tree:
            class Leaf:
                interpolation = sol.interpolation
                evaluate = staticmethod(lambda *a, **k: get2(sol.evaluate(*a, **k)))
                derivative = staticmethod(lambda *a, **k: get2(sol.derivative(*a, **k)))
            got = []

            def get2(x):
                got.append((x["a"], x["b"][0]))
                return x["a"]
            return dict(self.ask(Leaf, te, tf), pairs=got)
        return self.ask(sol, te, tf)

    @staticmethod
    def ask(sol, te, tf):
        return dict(el=sol.evaluate(te), er=sol.evaluate(te, left=False), dl=sol.derivative(te), dr=sol.derivative(te, left=False), inc=sol.evaluate(te, tf), incr=sol.evaluate(te, tf, left=False),
                    fl=sol.evaluate(tf), fr=sol.evaluate(tf, left=False),
                    it0=sol.interpolation.t0, it1=sol.interpolation.t1)

    def inputs(self):
        inp = super().inputs()
        inp["te"], inp["tf"] = In(), In()
        inp["DEL"] = In((self.N,), values=[0] * self.N)
        return inp

    def assumes(self, i):
        # queries not within rounding of step boundaries unless equal to them
        return super().assumes(i)


def dense(cfg):
    def prop(i, o, op):
        tr = Trace(cfg, i, o, op)
        N, sg = cfg.N, tr.sg
        p = o["post"]
        te = S.mul(sg, i.te[()])
        last, some = tr.T0, False
        for j in range(N):
            last = S.ite(tr.acc[j], tr.t1[j], last)
            some = OR(some, tr.acc[j])
        out = [("range-start", IMP(some, op.eq(p["it0"][()], i.t0[()]))), ("range-end", IMP(some, op.eq(p["it1"][()], S.mul(sg, last))))]
        inside = AND(S.le(tr.T0, te), S.le(te, last), some)
        for key in ("el", "er", "dl", "dr"):
            out.append((f"outside-nan-{key}", IMP(NOT(inside), OR(S.is_nan(p[key][()]), AND(NOT(some), S.eq(te, tr.T0))))))
            out.append((f"inside-not-nan-{key}", IMP(inside, NOT(S.is_nan(p[key][()])))))
        if not cfg.equal:
            out.append(("trivial", True))
        for j in range(N):
            a, b = tr.t0[j], tr.t1[j]
            s = tr.s_in(j)
            v = tr.interp(j, te, s, tr.k[j])
            base = S.add(S.add(tr.y0[j], s), tr.pick(list(i.A), tr.k[j]))
            der = S.mul(sg, S.add(S.add(base, S.mul(7, te)), S.add(S.mul(13, a), S.mul(17, b))))
            first, fin = S.eq(tr.k[j], 0), S.eq(tr.k[j], S.sub(tr.nacc, 1))
            inl = AND(tr.acc[j], OR(S.lt(a, te), AND(first, S.eq(a, te))), S.le(te, b))
            inr = AND(tr.acc[j], S.le(a, te), OR(S.lt(te, b), AND(fin, S.eq(te, b))))
            out.append((f"left-value-{j}", IMP(inl, op.eq(p["el"][()], v))))
            out.append((f"right-value-{j}", IMP(inr, op.eq(p["er"][()], v))))
            out.append((f"left-derivative-{j}", IMP(inl, op.eq(p["dl"][()], der))))
            out.append((f"right-derivative-{j}", IMP(inr, op.eq(p["dr"][()], der))))
        out.append(("increment", op.eq(p["inc"][()], S.sub(p["fl"][()], p["el"][()]))))
        out.append(("increment-right", op.eq(p["incr"][()], S.sub(p["fr"][()], p["er"][()]))))
        if cfg.tree:
            for m, (x, y) in enumerate(p["pairs"]):
                # every component of a structured state is interpolated alike
                diff = 0 if m in (4, 5) else (S.mul(sg, 1) if m in (2, 3) else 1)
                out.append((f"structured-{m}", IMP(NOT(S.is_nan(x[()])), op.eq(y[()], S.add(x[()], diff)))))
        return out
    return prop


def trivial(cfg):
    """t0 == t1: the initial value at that time, NaN elsewhere"""
    def prop(i, o, op):
        p = o["post"]
        at = S.eq(i.te[()], i.t0[()])
        out = []
        for key in ("el", "er"):
            out.append((f"value-{key}", IMP(at, op.eq(p[key][()], i.y0[()]))))
            out.append((f"outside-{key}", IMP(NOT(at), S.is_nan(p[key][()]))))
        out += [("t0", op.eq(p["it0"][()], i.t0[()])), ("t1", op.eq(p["it1"][()], i.t0[()]))]
        return out
    return prop


def run(run):
    N = 3 if run.quick else 4
    run.bounds = [f"up to {N} attempted steps, any accept/reject pattern; any query times; forward and backward; nondeterministic solver, controller and local interpolant (values and derivatives identify step and time)"]
    for nm, cfg, pr in [
        ("forward", Dense(N), dense),
        ("backward", Dense(N, rev=True), dense),
        ("backward-tree", Dense(2, rev=True, tree=True), dense),
        ("equal", Dense(2, equal=True), trivial),
    ]:
        run.case(nm, cfg.fn, cfg.inputs(), pr(cfg), cfg.assumes, eps=EPS, errors="forbid", timeout=150)
