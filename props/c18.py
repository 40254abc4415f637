"""C18: the solvers for underdamped Langevin diffusions agree, in one step, with the exact solution up to their documented strong order: every
coefficient of the stochastic Taylor expansion, for all states, frictions, dampings, forces, increments and Levy areas."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from .c17 import Noise

SOLVERS = {"ALIGN": (dfx.ALIGN, 2), "ShOULD": (dfx.ShOULD, 3), "QUICSORT": (dfx.QUICSORT, 3)}
TOL = F(1, 10**9)
N = 2  # coordinates (one leaf each)


def tup(v):
    return dict(a=v[0], b=v[1])


def untup(d):
    return jnp.stack([d["a"], d["b"]])


def force(d, x0):
    """a general quadratic force of the first coordinate acting on the second one, both with a constant force. (Every elementary differential that
    matters up to the weights compared is present, and nothing else, as f'f' only appears at weight 8.)"""
    def f(x, args):
        z = untup(x)[0] - x0[0]
        return tup(jnp.stack([d["A"][0], d["A"][1] + d["B"] * z + d["C"] * z * z]))
    return f


def make(d, mk):
    x0, v0 = d["x"], d["v"]
    f = force(d, x0)
    gam, u = tup(d["g"]), tup(d["u"])
    noise = Noise(tup(jnp.broadcast_to(d["h"], (N,))), tup(d["W"]), tup(d["H"]), tup(d["K"]))
    terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gam, u, f), dfx.UnderdampedLangevinDiffusionTerm(gam, u, noise))
    y0 = (tup(x0), tup(v0))
    return terms, y0, f


def exact(i, rho, top):
    """stochastic Taylor expansion of (x, v) at h up to weight `top`, by Picard iteration on polynomials in s and the iterated integrals of W"""
    h = i.h[()]
    # {("s", k): s^k} of weight 2k, {(j, k): k-fold time integral of W_j} of weight 2k+1
    wt = lambda key: 2 * key[1] if key[0] == "s" else 2 * key[1] + 1

    def add(*ps):
        out = {}
        for p in ps:
            for k, c in p.items():
                if wt(k) <= top:
                    out[k] = S.add(out.get(k, 0), c)
        return out

    def scale(c, p):
        return {k: S.mul(c, v) for k, v in p.items()}

    def integ(p):
        return add({((k[0], k[1] + 1)): (S.mul(F(1, k[1] + 1), c) if k[0] == "s" else c) for k, c in p.items()})

    def mul(p, q):
        out = {}
        for a, c in p.items():
            for b, d in q.items():
                if wt(a) + wt(b) + 2 > top:  # (it is integrated once more at least)
                    continue
                assert a[0] == "s" and b[0] == "s", (a, b)
                out = add(out, {("s", a[1] + b[1]): S.mul(c, d)})
        return out

    z = [dict() for _ in range(N)]
    v = [{("s", 0): i.v[k]} for k in range(N)]
    for _ in range(2 * top + 2):
        fz = []
        for k in range(N):
            fk = {("s", 0): i.A[k]}
            if k == 1:
                fk = add(fk, scale(i.B[()], z[0]), scale(i.C[()], mul(z[0], z[0])))
            fz.append(fk)
        z = [integ(v[k]) for k in range(N)]
        v = [add({("s", 0): i.v[k], (k, 0): rho[k]}, integ(scale(S.neg(i.g[k]), v[k])), integ(scale(S.neg(i.u[k]), fz[k]))) for k in range(N)]

    def value(p):
        r = 0
        for (kind, n), c in p.items():
            if kind == "s":
                b = 1
                for _ in range(n):
                    b = S.mul(b, h)
            else:
                W, H, K = i.W[kind], i.H[kind], i.K[kind]
                if n == 0:
                    b = W
                elif n == 1:
                    b = S.mul(h, S.add(H, S.mul(F(1, 2), W)))
                elif n == 2:
                    b = S.mul(S.mul(h, h), S.add(K, S.add(S.mul(F(1, 2), H), S.mul(F(1, 6), W))))
                else:
                    raise AssertionError("higher integral")
            r = S.add(r, S.mul(c, b))
        return r
    return [value(p) for p in z], [value(p) for p in v]


def truncate(p, i, top):
    """the part of weight <= top"""
    if isinstance(p, (int, F)):
        return p
    w = {}
    for name, k in (("h", 2), ("W", 1), ("H", 1), ("K", 1)):
        for a in np.asarray(i[name], dtype=object).reshape(-1):
            (m,) = a.d.keys()
            w[m[0][0]] = k
    return S._norm({m: c for m, c in p.d.items() if sum(w.get(a, 0) * n for a, n in m) <= top})


def inputs():
    return dict(h=In(), x=In((N,)), v=In((N,)), g=In((N,)), u=In((N,)), A=In((N,)), B=In(), C=In(), W=In((N,)), H=In((N,)), K=In((N,)))


def base(i):
    h = i.h[()]
    out = [S.lt(0, h), S.le(h, 1), S.bnot(S.eq(h, 0))]
    for k in "gu":
        out += [x for g in i[k] for x in (S.lt(0, g), S.le(g, 1))]
    out += [S.lt(S.mul(h, g), 1000) for g in i.g]
    for k in "xvABCWHK":
        out += [S.le(S.absolute(x), 1) for x in np.asarray(i[k], dtype=object).reshape(-1)]
    return out


def values(e):
    a = np.asarray
    return dict(h=a(e * e), x=a([0.25, -0.5]), v=a([0.75, 0.5]), g=a([1.0, 0.5]), u=a([0.5, 1.0]), A=a([0.5, -1.0]), B=a(-0.75), C=a(1.0),
                W=e * a([0.5, -1.0]), H=e * a([0.5, 0.25]), K=e * a([-0.5, 0.75]))


B = lambda at: 1


def order(run, name):
    """taylor branch of the coefficients"""
    mk, p = SOLVERS[name]
    top = 2 * p
    e = 0.01 if p == 2 else 0.05

    def fn(d):
        terms, y0, f = make(d, mk)
        solver = mk(taylor_threshold=1000.0)
        st = solver.init(terms, 0.0, d["h"], y0, None)
        (x1, v1), err, di, st1, res = solver.step(terms, 0.0, d["h"], y0, None, st, False)
        out = dict(x=untup(x1) - d["x"], v=untup(v1), rho=jnp.sqrt(2 * d["g"] * d["u"]), strong=jnp.asarray(solver.strong_order(terms)))
        if err is not None:
            out.update(ex=untup(err[0]), ev=untup(err[1]))
        return out

    def prop(i, o, op):
        X, V = exact(i, [o["rho"][k] for k in range(N)], top)
        out = [("strong-order", S.eq(o["strong"][()], p))]
        for lab, got, want in (("x", o["x"], X), ("v", o["v"], V)):
            for k in range(N):
                if op.replay:
                    out.append((f"{lab}{k}", bool(abs(float(got[k]) - float(want[k])) <= 0.2 * e ** (top + 1))))
                else:
                    out.append((f"{lab}{k}", op.near(truncate(S.sub(got[k], want[k]), i, top), 0, TOL, B)))
        if "ev" in o:
            # the embedded estimate: nothing below weight 4, the leading term of the difference to a lower order method at weight 4
            for k in range(N):
                for lab in ("ex", "ev"):
                    if op.replay:
                        out.append((f"error-{lab}{k}", bool(abs(float(o[lab][k])) <= 5 * e**4)))
                    else:
                        out.append((f"error-{lab}{k}", op.near(truncate(o[lab][k], i, 3), 0, TOL, B)))
        return out

    run.case(f"{name}-taylor", fn, inputs(), prop, base, concretise=lambda c: values(e), timeout=60)


def direct(run, name, al):
    """direct formula for the coefficients agrees with the Taylor one for small steps, and the state handed on is right"""
    mk, p = SOLVERS[name]

    def fn(d):
        d = dict(d, h=jnp.asarray(float(al)), g=jnp.asarray([1.0, 0.5]))
        out = []
        for thr in (0.0, 1000.0):
            terms, y0, f = make(d, mk)
            solver = mk(taylor_threshold=thr)
            st = solver.init(terms, 0.0, d["h"], y0, None)
            (x1, v1), err, di, st1, res = solver.step(terms, 0.0, d["h"], y0, None, st, False)
            out.append(dict(x=untup(x1), v=untup(v1), err=err))
        return out

    ins = inputs()
    del ins["h"], ins["g"]

    def assumes(i):
        out = [x for g in i.u for x in (S.lt(0, g), S.le(g, 1))]
        for k in "xvABCWHK":
            out += [S.le(S.absolute(x), 1) for x in np.asarray(i[k], dtype=object).reshape(-1)]
        return out

    def prop(i, o, op):
        out = []
        a, b = o
        tol = 10 * F(al) ** 5
        for lab in "xv":
            for k in range(N):
                if op.replay:
                    out.append((f"{lab}{k}", bool(abs(float(a[lab][k]) - float(b[lab][k])) <= float(tol))))
                else:
                    out.append((f"{lab}{k}", op.near(a[lab][k], b[lab][k], tol, B)))
        return out

    def conc(c):
        v = values(1.0)
        del v["h"], v["g"]
        return v
    run.case(f"{name}-direct-{al}", fn, ins, prop, assumes, concretise=conc, timeout=60)


def carry(run, name, ratio, jump):
    """a step from the memory of the previous one equals a step started afresh (also when the step size or, across a jump, the force changes)"""
    mk, p = SOLVERS[name]

    def fn(d):
        h1, h2 = d["h"], d["h"] * float(ratio)
        d = dict(d, C=jnp.zeros(()))
        terms, y0, f = make(d, mk)
        t2 = make(dict(d, h=h2, A=d["A2"] if jump else d["A"], W=d["W2"]), mk)[0]
        solver = mk(taylor_threshold=1000.0)
        st = solver.init(terms, 0.0, h1, y0, None)
        y1, err, di, st1, res = solver.step(terms, 0.0, h1, y0, None, st, False)
        st = solver.init(t2, h1, h1 + h2, y1, None)
        out = []
        for s in (st1, st):
            (x, v), err, di, s2, res = solver.step(t2, h1, h1 + h2, y1, None, s, jnp.asarray(jump))
            out.append(dict(x=untup(x), v=untup(v), f=None if s2.prev_f is None else untup(s2.prev_f), dense=(untup(di["y0"][0]), untup(di["y1"][1])),
                            ok=res == dfx.RESULTS.successful))
        out.append(dict(x0=untup(y1[0])))
        return out

    ins = dict(inputs(), A2=In((N,)), W2=In((N,)))
    del ins["C"]

    def assumes(i):
        h = i.h[()]
        out = [S.le(F(1, 4), h), S.le(h, 1), S.lt(0, h), S.bnot(S.eq(h, 0))]
        for k in "gu":
            out += [x for g in i[k] for x in (S.lt(0, g), S.le(g, 1))]
        out += [S.lt(S.mul(S.mul(r, h), g), 1000) for g in i.g for r in (1, ratio)]
        for k in ("x", "v", "A", "B", "A2", "W", "H", "K", "W2"):
            out += [S.le(S.absolute(x), 1) for x in np.asarray(i[k], dtype=object).reshape(-1)]
        return out

    def prop(i, o, op):
        a, b, c = o
        out = []
        for k in range(N):
            for lab in "xvf":
                if a[lab] is not None:
                    out.append((f"{lab}{k}", op.near(a[lab][k], b[lab][k], TOL, B)))
            out.append((f"dense-start{k}", op.near(a["dense"][0][k], c["x0"][k], TOL, B)))
            out.append((f"dense-end{k}", op.near(a["dense"][1][k], a["v"][k], TOL, B)))
        return out

    def conc(c):
        v = values(0.8)
        v.update(A2=np.asarray([-0.5, 0.25]), W2=np.asarray([0.4, 0.3]))
        del v["C"]
        return v
    run.case(f"{name}-carry-{ratio}{'-jump' if jump else ''}", fn, ins, prop, assumes, concretise=conc, timeout=60)


def run(run):
    run.bounds = ["two coordinates (two leaves) with their own friction and damping in (0,1], the first one pushing the second with a general quadratic force (coefficients in [-1,1]), any state",
                  "all terms of the stochastic Taylor expansion up to weight 2p (p the strong order) in powers of the root of the step size",
                  "coefficients computed by Taylor expansion: exactly; computed directly: against the former at fixed small steps", "agreement within 1e-9"]
    for name in SOLVERS:
        order(run, name)
        for al in (F(1, 32), F(1, 16)):
            direct(run, name, al)
        for ratio, jump in ((F(1), False), (F(1, 2), False), (F(1001, 1000), False), (F(1000001, 1000000), False), (F(1), True)):
            carry(run, name, ratio, jump)
