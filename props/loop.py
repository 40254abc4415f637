"""Shared harness: the real `diffeqsolve` integration loop driven by nondeterministic solver/controller."""
from fractions import Fraction
import math
import jax.numpy as jnp
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from vk.stubs import SymSolver, SymController, result_flags, CODES

EPS = Fraction(1, 2**44)  # grid spacing standing for one ulp


class Loop:
    """cfg: N (max_steps), nts, rev (t1<t0), jump, rs/rc (solver/controller results), made_jump0"""

    def __init__(self, N=3, nts=0, rev=False, jump=True, rs=False, rc=False, saveat=None, y0=None, event=None,
                 adjoint=None, equal=False, dense=False, extra_out=None, mj0=False, args=None, max_steps=0, post=None):
        self.N, self.nts, self.rev, self.jump, self.rs, self.rc = N, nts, rev, jump, rs, rc
        self.saveat = saveat or (lambda d: dfx.SaveAt(t1=True, controller_state=True))
        self.y0 = y0 or (lambda d: d["y0"])
        self.event = event
        self.equal = equal
        self.mj0 = mj0
        self.adjoint = adjoint or dfx.ForwardMode()
        self.post = post
        self.throw = False
        self.max_steps = N if max_steps == 0 else max_steps

    def inputs(self):
        N = self.N
        inp = dict(
            D=In((N,)), A=In((N,)), G=In((N,)), s0=In(), t0=In(), t1=In(), y0=In(),
            KEEP=In((N,), "bool"), DT=In((N,)), DEL=In((N,)), h0=In(),
        )
        if self.nts:
            inp["ts"] = In((self.nts,))
        if self.jump:
            inp["JUMP"] = In((N,), "bool")
        if self.rs:
            inp["RS"] = In((N,), "int")
        if self.rc:
            inp["RC"] = In((N,), "int")
        if self.mj0:
            inp["MJ0"] = In((), "bool")
        return inp

    def fn(self, d):
        term = dfx.ODETerm(lambda t, y, args: y)
        sol = dfx.diffeqsolve(
            term,
            SymSolver(d["D"], d["A"], d["G"], d["s0"], d.get("RS")),
            d["t0"], d["t1"], None, self.y0(d),
            args=d.get("arg"),
            saveat=self.saveat(d),
            stepsize_controller=SymController(d["KEEP"], d["DT"], d["DEL"], d["h0"], d.get("JUMP"), d.get("RC")),
            adjoint=self.adjoint, max_steps=self.max_steps, throw=self.throw,
            event=None if self.event is None else self.event(d),
            made_jump=d.get("MJ0"),
        )
        out = dict(
            ts=sol.ts, ys=sol.ys, rec=sol.controller_state, mj=sol.made_jump, ss=sol.solver_state,
            n=dict(steps=sol.stats["num_steps"], acc=sol.stats["num_accepted_steps"], rej=sol.stats["num_rejected_steps"]),
            res=result_flags(sol.result), t0=sol.t0, t1=sol.t1, mask=sol.event_mask,
        )
        if self.post is not None:
            out["post"] = self.post(sol, d)
        return out

    def assumes(self, i):
        sg = -1 if self.rev else 1
        T0, T1 = S.mul(sg, i.t0[()]), S.mul(sg, i.t1[()])
        out = [S.lt(0, i.h0[()])]
        if self.equal:
            out.append(S.eq(T0, T1))
        else:
            # intervals longer than the (100 ulp) end-clipping tolerance
            out.append(S.lt(S.add(T0, 1000 * EPS), T1))
        if self.rev and not self.equal:
            out.append(S.bnot(S.lt(i.t0[()], i.t1[()])))
        elif not self.equal:
            out.append(S.lt(i.t0[()], i.t1[()]))
        out += [S.lt(0, x) for x in i.DT] + [S.le(0, x) for x in i.DEL]
        if self.nts:
            # note: validity of ts is part of the interface (checked elsewhere)
            ts = [S.mul(sg, x) for x in i.ts]
            out += [S.le(T0, ts[0]), S.le(ts[-1], T1)] + [S.le(a, b) for a, b in zip(ts, ts[1:])]
        for nm in ("RS", "RC"):
            if hasattr(i, nm):
                out += [S.band(S.le(0, x), S.lt(x, len(CODES))) for x in i[nm]]
        B = 1000
        return out


class Trace:
    """Reads the recorded attempts; derived notions used by the oracles."""

    def __init__(self, cfg: Loop, i, o, op):
        self.cfg, self.i, self.o, self.op = cfg, i, o, op
        N = cfg.N
        sg = -1 if cfg.rev else 1
        self.sg = sg
        self.T0, self.T1 = S.mul(sg, i.t0[()]), S.mul(sg, i.t1[()])
        r = o["rec"]
        self.t0, self.t1, self.y0, self.y1, self.err = (list(r[k]) for k in ("t0", "t1", "y0", "y1", "err"))
        self.n = o["n"]["steps"][()]
        self.exec = [S.lt(j, self.n) for j in range(N)]
        self.keep = [i.KEEP[j] for j in range(N)]
        self.acc = [S.band(self.exec[j], self.keep[j]) for j in range(N)]
        self.k = []
        c = 0
        for j in range(N):
            self.k.append(c)
            c = S.add(c, S.ite(self.acc[j], 1, 0))
        self.nacc = c

    def pick(self, arr, k):
        r = arr[-1]
        for x in range(len(arr) - 1, -1, -1):
            r = S.ite(S.eq(k, x), arr[x], r)
        return r

    def exact(self, a, b):
        """equality of times: tolerance only in replay"""
        return self.op.eq(a, b)

    # interpolant of attempt j at internal time t
    def interp(self, j, t, s_in, k):
        a = S.add(S.add(self.y0[j], s_in), self.pick(list(self.i.A), k))
        return S.add(S.add(a, S.mul(2, t)), S.add(S.mul(3, self.t0[j]), S.mul(5, self.t1[j])))

    def s_in(self, j):
        """solver state seen by attempt j = err - D[k]"""
        return S.sub(self.err[j], self.pick(list(self.i.D), self.k[j]))
