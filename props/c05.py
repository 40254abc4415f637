"""C05: the error-controlled step size controller: acceptance rule, retry/growth limits, PID history, dtmin/dtmax."""
import math
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from vk.stubs import result_flags


def maxnorm(x):
    m = 0.0
    for l in jtu.tree_leaves(x):
        m = jnp.maximum(m, jnp.max(jnp.abs(l)))
    return m


ABS = S.absolute


def flags(r):
    return {k: jnp.asarray(v) for k, v in result_flags(r).items()}


# ---------------------------------------------------------------- acceptance
def acceptance(run, name, norm, tree, shape, kw, oracle, **ck):
    def fn(d):
        c = dfx.PIDController(rtol=0.125, atol=0.0625, norm=norm, **kw)
        y0, y1, e = tree(d["y0"]), tree(d["y1"]), tree(d["e"])
        term = dfx.ODETerm(lambda t, y, a: y)
        _, st = c.init(term, d["t0"], d["t0"] + 10 * d["h"], y0, d["h"], None, None, 2)
        keep, a, b, mj, st, res = c.adapt_step_size(d["t0"], d["t0"] + d["h"], y0, y1, None, e, 2, st)
        return dict(keep=jnp.asarray(keep), a=a, b=b, mj=jnp.asarray(mj), res=flags(res))

    def prop(i, o, op):
        keep = o["keep"][()]
        h = i.h[()]
        exp = oracle(i)
        a, b = o["a"][()], o["b"][()]
        t0 = i.t0[()]
        dt = S.sub(b, a)
        out = [
            ("accept-iff-error-below-tolerance", op.iff(keep, exp)),
            ("starts", op.eq(a, S.ite(keep, S.add(t0, h), t0))),
            ("no-jump", S.bnot(o["mj"][()])),
            ("ok", o["res"]["successful"][()]),
            ("accepted-grows", S.implies(keep, S.band(op.le(h, dt), op.le(dt, S.mul(10, h))))),
            ("rejected-shrinks", S.implies(S.bnot(keep), S.band(op.le(S.mul(F(0.2), h), dt), op.le(dt, S.mul(F(0.9), h))))),
        ]
        return out

    def assumes(i):
        return [S.lt(0, i.h[()])] + [S.band(S.le(-100, x), S.le(x, 100)) for nm in ("y0", "y1", "e") for x in i[nm].reshape(-1)] + [S.le(i.h[()], 100), S.le(ABS(i.t0[()]), 100)]

    run.case(name, fn, dict(y0=In(shape), y1=In(shape), e=In(shape), h=In(), t0=In()), prop, assumes, div_ext=True,
             covers=lambda i, o, op: [("accepted", o["keep"][()]), ("rejected", S.bnot(o["keep"][()]))], **ck)


# ---------------------------------------------------------------- non-finite candidates
def nonfinite(run):
    """error estimate inf (a NaN error is turned into inf by the integration loop); candidate NaN."""
    def fn(d):
        out = []
        for e, y1 in [(jnp.inf, 1.0), (jnp.inf, jnp.nan), (0.5, jnp.nan), (2.0, jnp.nan), (0.0, 1.0), (jnp.inf, jnp.inf)]:
            c = dfx.PIDController(rtol=0.125, atol=1.0, pcoeff=1.0, icoeff=1.0, error_order=1, norm=maxnorm)
            term = dfx.ODETerm(lambda t, y, a: y)
            _, st = c.init(term, d["t0"], d["t0"] + 10 * d["h"], d["y0"], d["h"], None, None, 1)
            keep, a, b, _, st, res = c.adapt_step_size(d["t0"], d["t0"] + d["h"], d["y0"], jnp.asarray(y1), None, jnp.asarray(e), 1, st)
            # and a following ordinary step with error 1/2: history must not be poisoned
            keep2, a2, b2, _, _, _ = c.adapt_step_size(a, b, d["y0"], d["y0"], None, jnp.asarray(0.5), 1, st)
            out.append(dict(keep=jnp.asarray(keep), a=a, b=b, res=flags(res), a2=a2, b2=b2, keep2=jnp.asarray(keep2)))
        return out

    exp = [False, False, True, None, True, False]

    def prop(i, o, op):
        out = []
        h, t0 = i.h[()], i.t0[()]
        for k, (oo, e) in enumerate(zip(o, exp)):
            a, b, keep = oo["a"][()], oo["b"][()], oo["keep"][()]
            if e is None:
                sc = S.add(1, S.mul(F(1, 8), ABS(i.y0[()])))
                e = S.lt(2, sc)
            out.append((f"keep-{k}", op.iff(keep, e)))
            dt = S.sub(b, a)
            out.append((f"finite-{k}", S.band(S.is_finite(a), S.is_finite(b))))
            out.append((f"start-{k}", op.eq(a, S.ite(keep, S.add(t0, h), t0))))
            out.append((f"dt-{k}", S.ite(keep, S.band(op.le(h, dt), op.le(dt, S.mul(10, h))), S.band(op.le(S.mul(F(0.2), h), dt), op.le(dt, S.mul(F(0.9), h))))))
            dt2 = S.sub(oo["b2"][()], oo["a2"][()])
            out.append((f"next-{k}", S.band(S.is_finite(oo["b2"][()]), oo["keep2"][()], op.le(dt, dt2), op.le(dt2, S.mul(10, dt)))))
        return out

    run.case("nonfinite", fn, dict(y0=In(), h=In(), t0=In()), prop,
             lambda i: [S.lt(0, i.h[()]), S.le(i.h[()], 100), S.le(ABS(i.y0[()]), 50), S.le(ABS(i.t0[()]), 100)], div_ext=True, timeout=60)


# ---------------------------------------------------------------- the control law over several steps
def law(run, name, K, pid, order, dtmin=None, dtmax=None, force=True, ctrl_order=None, timeout=120, lo=F(1, 4), hi=4, zero=False):
    """errors e_1..e_K in [lo, hi] (scaled), arbitrary accept/reject pattern; step sizes follow the documented law"""
    p, it, dd = pid
    kw = dict(pcoeff=p, icoeff=it, dcoeff=dd)
    if ctrl_order is not None:
        kw["error_order"] = ctrl_order
    fmin, fmax, safety = 0.25, 4.0, 0.75

    def fn(d):
        c = dfx.PIDController(rtol=0.0, atol=1.0, norm=maxnorm, factormin=fmin, factormax=fmax, safety=safety,
                              dtmin=dtmin, dtmax=dtmax, force_dtmin=force, **kw)
        term = dfx.ODETerm(lambda t, y, a: y)
        t1, st = c.init(term, jnp.asarray(0.0), jnp.asarray(100.0), jnp.asarray(0.0), d["h"], None, None, order)
        t0 = jnp.asarray(0.0)
        rec = []
        first = t1
        for k in range(K):
            h = t1 - t0
            keep, t0n, t1n, mj, st, res = c.adapt_step_size(t0, t1, jnp.asarray(0.0), jnp.asarray(0.0), None, d["e"][k], order, st)
            rec.append(dict(keep=jnp.asarray(keep), t0=t0n, t1=t1n, res=flags(res)))
            t0, t1 = t0n, t1n
        return dict(first=first, rec=rec)

    eo = order if ctrl_order is None else ctrl_order
    c1, c2, c3 = F(p + it + dd) / eo, -F(p + 2 * dd) / eo, F(dd) / eo
    for c in (c1, c2, c3):
        assert c.denominator == 1

    def prop(i, o, op):
        out = []
        e = list(i.e)
        h = i.h[()]
        if dtmax is not None:
            h = S.minimum(h, F(dtmax))
        if dtmin is not None:
            h = S.maximum(h, F(dtmin))
        out.append(("first-step", op.eq(o["first"][()], h)))
        hist = [F(1), F(1)]  # errors of last two accepted steps (1 before any)
        t0, t1 = 0, h
        at_min = False
        ex = True  # no failure so far
        for k in range(K):
            r = o["rec"][k]
            keep = S.lt(e[k], 1)
            if dtmin is not None:
                keep = S.bor(keep, at_min)
            out.append((f"keep-{k}", S.implies(ex, op.iff(r["keep"][()], keep))))
            ek = e[k]
            lo_f, hi_f = S.ite(keep, 1, F(fmin)), S.ite(keep, F(fmax), F(safety))
            # factor = clip(safety * e_k^-c1 * h1^-c2 * h2^-c3), compared without division
            def pw(x, n):
                n = int(n)
                v = 1
                for _ in range(abs(n)):
                    v = S.mul(v, x)
                return (v, 1) if n > 0 else (1, v)
            num, den = F(safety), 1
            for x, c in ((ek, c1), (hist[0], c2), (hist[1], c3)):
                a, b = pw(x, c)
                num, den = S.mul(num, b), S.mul(den, a)
            prev = S.sub(t1, t0)
            if zero:
                zero_e = S.eq(ek, 0)
            else:
                zero_e = False
            # raw >= hi  <=> num >= hi*den
            big = S.bor(zero_e, S.ge(num, S.mul(hi_f, den)))
            small = S.band(S.bnot(big), S.le(num, S.mul(lo_f, den)))
            nt0, nt1 = r["t0"][()], r["t1"][()]
            dt = S.sub(nt1, nt0)
            out.append((f"start-{k}", S.implies(ex, op.eq(nt0, S.ite(keep, t1, t0)))))
            # expected new length, as facts on dt (before dtmin/dtmax clipping dt*)
            if dtmin is None and dtmax is None:
                out.append((f"dt-max-{k}", S.implies(big, op.eq(dt, S.mul(prev, hi_f)))))
                out.append((f"dt-min-{k}", S.implies(small, op.eq(dt, S.mul(prev, lo_f)))))
                out.append((f"dt-law-{k}", S.implies(S.bnot(S.bor(big, small)), op.eq(S.mul(dt, den), S.mul(prev, num)))))
                out.append((f"ok-{k}", r["res"]["successful"][()]))
            else:
                want_hi, want_lo = S.mul(prev, hi_f), S.mul(prev, lo_f)
                clip = lambda x: S.maximum(S.minimum(x, F(dtmax)) if dtmax is not None else x, F(dtmin) if dtmin is not None else x)
                out.append((f"dt-max-{k}", S.implies(S.band(ex, big), op.eq(dt, clip(want_hi)))))
                out.append((f"dt-min-{k}", S.implies(S.band(ex, small), op.eq(dt, clip(want_lo)))))
                mid = S.bnot(S.bor(big, small))
                inner = S.band(mid, S.bnot(S.eq(dt, F(dtmin))) if dtmin is not None else True, S.bnot(S.eq(dt, F(dtmax))) if dtmax is not None else True)
                out.append((f"dt-law-{k}", S.implies(S.band(ex, inner), op.eq(S.mul(dt, den), S.mul(prev, num)))))
                if dtmin is not None:
                    out.append((f"ge-dtmin-{k}", op.le(F(dtmin), dt)))
                    # want < dtmin
                    below = S.bor(S.band(big, S.lt(want_hi, F(dtmin))), S.band(small, S.lt(want_lo, F(dtmin))), S.band(mid, S.lt(S.mul(prev, num), S.mul(F(dtmin), den))))
                    above = S.bor(S.band(big, S.lt(F(dtmin), want_hi)), S.band(small, S.lt(F(dtmin), want_lo)), S.band(mid, S.lt(S.mul(F(dtmin), den), S.mul(prev, num))))
                    out.append((f"at-dtmin-{k}", S.implies(S.band(ex, below), op.eq(dt, F(dtmin)))))
                    if force:
                        out.append((f"ok-{k}", r["res"]["successful"][()]))
                        at_min = S.le(dt, F(dtmin))
                        if op.replay:
                            at_min = bool(float(dt) <= dtmin * (1 + 1e-12))
                    else:
                        out.append((f"halts-{k}", S.implies(S.band(ex, below), r["res"]["dt_min_reached"][()])))
                        out.append((f"continues-{k}", S.implies(S.band(ex, above), r["res"]["successful"][()])))
                        ex = S.band(ex, r["res"]["successful"][()])
                        at_min = S.le(dt, F(dtmin))
                if dtmax is not None:
                    out.append((f"le-dtmax-{k}", S.implies(ex, op.le(dt, F(dtmax)))))
            hist = [S.ite(keep, S.ite(zero_e, 1, ek) if zero else ek, hist[0]), S.ite(keep, hist[0], hist[1])]
            t0, t1 = nt0, nt1
        return out

    def assumes(i):
        lo_ = 0 if zero else lo
        return [S.lt(0, i.h[()]), S.le(i.h[()], 8), S.le(F(1, 64), i.h[()])] + [S.band(S.le(lo_, x), S.le(x, hi)) for x in i.e]

    run.case(name, fn, dict(h=In(), e=In((K,))), prop, assumes, div_ext=zero, timeout=timeout, batch=False)


def run(run):
    mx = lambda xs: S.maximum(xs[0], xs[1]) if len(xs) == 2 else xs[0]

    def scale(i, k):
        return S.add(F(1, 16), S.mul(F(1, 8), S.maximum(ABS(i.y0.reshape(-1)[k]), ABS(i.y1.reshape(-1)[k]))))

    within = lambda i, k: S.lt(ABS(i.e.reshape(-1)[k]), scale(i, k))
    acceptance(run, "accept-max-norm-vector", maxnorm, lambda v: v, (2,), {}, lambda i: S.band(within(i, 0), within(i, 1)), timeout=60)
    acceptance(run, "accept-max-norm-tree", maxnorm, lambda v: dict(a=v[0], b=(v[1:],)), (2,), {}, lambda i: S.band(within(i, 0), within(i, 1)), timeout=60)
    import optimistix as optx
    acceptance(run, "accept-rms-scalar", optx.rms_norm, lambda v: v, (), {}, lambda i: within(i, 0), timeout=60)
    nonfinite(run)
    law(run, "law-I", 2, (0, 2, 0), 2)
    law(run, "law-I-order-override", 1, (0, 3, 0), 2, ctrl_order=3)
    law(run, "law-PI", 2, (1, 1, 0), 1)
    law(run, "law-PID", 3 if not run.quick else 2, (1, 1, 1), 1)
    law(run, "law-D", 3, (0, 0, 1), 1)
    law(run, "law-I-zero-error", 2, (0, 1, 0), 1, zero=True)
    law(run, "dtmax", 2, (0, 1, 0), 1, dtmax=2.0)
    law(run, "dtmin-force", 2, (0, 1, 0), 1, dtmin=0.5)
    law(run, "dtmin-halt", 2, (0, 1, 0), 1, dtmin=0.5, force=False)
    law(run, "dtmin-dtmax", 2, (0, 1, 0), 1, dtmin=0.5, dtmax=2.0)
