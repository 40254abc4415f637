"""C17: SDE solvers converge to the documented (Ito or Stratonovich) solution with the documented strong order: the stochastic order
conditions of every coloured rooted tree, for one step executed symbolically with symbolic increment and Levy areas."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from . import sdetrees as T


class Noise(dfx.AbstractBrownianPath):
    """a Brownian path seen over the one step being taken"""
    dt: object
    W: object
    H: object
    K: object
    levy_area = dfx.SpaceTimeTimeLevyArea

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        if use_levy:
            return dfx.SpaceTimeTimeLevyArea(dt=self.dt, W=self.W, H=self.H, K=self.K)
        return self.W


# name -> (constructor, Ito?, [(regime, strong order, weights reproduced pathwise)], order as an ODE solver)
SOLVERS = {
    "Euler": (dfx.Euler, True, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 1),
    "EulerHeun": (dfx.EulerHeun, False, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 1),
    "Heun": (dfx.Heun, False, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 2),
    "Midpoint": (dfx.Midpoint, False, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 2),
    "Ralston": (dfx.Ralston, False, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 2),
    "ReversibleHeun": (dfx.ReversibleHeun, False, [("scalar", F(1, 2), 1), ("general", F(1, 2), 1)], 2),
    "ItoMilstein": (dfx.ItoMilstein, True, [("scalar", F(1), 2), ("commutative", F(1), 2)], None),
    "StratonovichMilstein": (dfx.StratonovichMilstein, False, [("scalar", F(1), 2), ("commutative", F(1), 2)], None),
    "SEA": (dfx.SEA, False, [("additive", F(1), 3)], 1),
    "ShARK": (dfx.ShARK, False, [("additive", F(3, 2), 3)], 2),
    "SRA1": (dfx.SRA1, False, [("additive", F(3, 2), 3)], 2),
    "GeneralShARK": (dfx.GeneralShARK, False, [("additive", F(3, 2), 3), ("scalar", F(1), 2), ("commutative", F(1), 2), ("general", F(1, 2), 1)], 2),
    "SPaRK": (dfx.SPaRK, False, [("additive", F(3, 2), 3), ("scalar", F(1), 2), ("commutative", F(1), 2), ("general", F(1, 2), 1)], 2),
    "SlowRK": (dfx.SlowRK, False, [("scalar", F(3, 2), 3), ("commutative", F(1), 2), ("general", F(1, 2), 1)], 2),
}
STRONG = dict(Euler=F(1, 2), EulerHeun=F(1, 2), Heun=F(1, 2), Midpoint=F(1, 2), Ralston=F(1, 2), ReversibleHeun=F(1, 2), ItoMilstein=1,
              StratonovichMilstein=1, SEA=1, ShARK=F(3, 2), SRA1=F(3, 2), GeneralShARK=F(1, 2), SPaRK=F(1, 2), SlowRK=F(3, 2))
ERR = dict(Heun=1, Midpoint=1, Ralston=1, ReversibleHeun=1, SPaRK=2)
TOL = F(1, 10**9)


class Sys:
    """the tree system as drift and diffusion; `time` replaces the one-node drift tree by time itself below other nodes"""

    def __init__(self, ts, m, scalar):
        self.ts, self.m, self.scalar = ts, m, scalar
        self.idx = {t: i for i, t in enumerate(ts)}
        self.n = len(ts)

    def vf(self, color, z, s):
        out = []
        for t in self.ts:
            r = jnp.zeros(())
            if t[0] == color:
                r = jnp.ones(())
                for c in t[1]:
                    r = r * (s if (s is not None and c == T.f) else z[self.idx[c]])
            out.append(r)
        return jnp.stack(out)

    def terms(self, t0, h, y0, time, W, H, K):
        def part(c):
            return lambda t, y, args: self.vf(c, y - y0, (t - t0) if time else None)

        if self.scalar:
            g = part(1)
        else:
            g = lambda t, y, args: jnp.stack([part(c)(t, y, args) for c in range(1, self.m + 1)], -1)
        return dfx.MultiTerm(dfx.ODETerm(part(0)), dfx.ControlTerm(g, Noise(h, W, H, K)))

    def step(self, mk, t0, h, q, time, W, H, K):
        y0 = q * jnp.arange(1.0, self.n + 1)
        terms = self.terms(t0, h, y0, time, W, H, K)
        solver = mk()
        st = solver.init(terms, t0, t0 + h, y0, None)
        y1, err, di, st, res = solver.step(terms, t0, t0 + h, y0, None, st, False)
        return dict(d=y1 - y0, err=err, strong=jnp.asarray(solver.strong_order(terms), dtype=jnp.float64))

    def back(self, mk, t0, h, q, time, W, H, K):
        """a whole solve of one step backwards in time"""
        y0 = q * jnp.arange(1.0, self.n + 1)
        terms = self.terms(t0, h, y0, time, W, H, K)
        sol = dfx.diffeqsolve(terms, mk(), t0, t0 - h, None, y0, stepsize_controller=dfx.StepTo(ts=jnp.stack([t0, t0 - h])), adjoint=dfx.DirectAdjoint(), max_steps=1, throw=False)
        return dict(d=sol.ys[0] - y0, ok=sol.result == dfx.RESULTS.successful)


def ok(regime, time):
    if regime != "additive":
        return lambda t: True
    return T.additive_time if time else T.additive


B = lambda at: 1


def pathwise(run, name, regime, p, wt, time):
    mk, ito, _, _ = SOLVERS[name]
    keep = ok(regime, time)
    multi = regime in ("commutative", "general")
    m = 2 if multi else 1
    ew = ERR.get(name, 0) if regime == "scalar" else 0  # weights that the error estimate ignores
    ts = [t for w in range(1, max(wt, ew + 1 if ew else 0) + 1) for t in T.trees(w, m) if keep(t)]
    sy = Sys(ts, m, not multi)

    def fn(d):
        return sy.step(mk, d["t0"], d["h"], d["q"], time, d["W"], d["H"], d["K"])

    def prop(i, o, op):
        h = i.h[()]
        near = lambda a, b: op.near(a, b, TOL, B)
        out = [("strong-order", S.eq(o["strong"][()], STRONG[name]))]
        if not multi:
            W, H = i.W[()], i.H[()]
            for k, t in enumerate(ts):
                if ew and (T.weight(t) <= ew or t == T.f):
                    out.append((f"error-tree{k}", near(o["err"][k], 0)))
                if T.weight(t) > wt:
                    continue
                want = T.pathwise(t, ito, *map(Wrap, (h, W, H))).v
                out.append((f"tree{k}-weight{T.weight(t)}", near(o["d"][k], want)))
            if ew:
                big = S.bor(*[S.lt(F(1, 10**8), S.absolute(o["err"][k])) for k, t in enumerate(ts) if T.weight(t) == ew + 1])
                out.append(("error-detects", S.bor(big, S.lt(S.absolute(W), F(1, 4)), S.lt(S.absolute(H), F(1, 4)))))
            return out
        for k, t in enumerate(ts):
            if t == T.f:
                out.append(("drift", near(o["d"][k], h)))
            elif t[1] == ():
                out.append((f"noise{t[0]}", near(o["d"][k], i.W[t[0] - 1])))
            else:
                a, b = t[0], t[1][0][0]
                if a <= b:
                    other = sy.idx[(b, ((a, ()),))]
                    want = S.mul(i.W[a - 1], i.W[b - 1])
                    if ito and a == b:
                        want = S.sub(want, h)
                    out.append((f"pair{a}{b}", near(S.add(o["d"][k], o["d"][other]), want)))
        return out

    def assumes(i):
        h = i.h[()]
        out = [S.le(F(1, 2), h), S.le(h, 1), S.lt(0, h), S.bnot(S.eq(h, 0))]
        for k in ("t0", "q"):
            out.append(S.le(S.absolute(i[k][()]), 1))
        for k in "WHK":
            out += [S.le(S.absolute(x), 1) for x in np.asarray(i[k], dtype=object).reshape(-1)]
        return out

    sh = (2,) if multi else ()
    conc = dict(t0=np.asarray(0.3), h=np.asarray(0.75), q=np.asarray(0.4), W=np.asarray([0.5, -0.75] if multi else 0.5), H=np.asarray([0.3, 0.2] if multi else 0.3),
                K=np.asarray([-0.6, 0.9] if multi else -0.6))
    run.case(f"{name}-{regime}{'-time' if time else ''}", fn, dict(t0=In(), h=In(), q=In(), W=In(sh), H=In(sh), K=In(sh)), prop, assumes,
             concretise=lambda c: dict(conc), timeout=60)


class Wrap:
    def __init__(self, v):
        self.v = v

    def __mul__(self, o):
        return Wrap(S.mul(self.v, o.v))

    def __add__(self, o):
        return Wrap(S.add(self.v, o.v))

    def __sub__(self, o):
        return Wrap(S.sub(self.v, o.v))

    def __truediv__(self, k):
        return Wrap(S.mul(self.v, F(1, k)))


# discrete laws with the moments of the normal law (variance 1 and 1/12) up to degree 5 (W3: 3)
W5 = [(-2, F(1, 12)), (-1, F(1, 6)), (0, F(1, 2)), (1, F(1, 6)), (2, F(1, 12))]
W3 = [(-1, F(1, 2)), (1, F(1, 2))]
H5 = H3 = [(F(-1, 2), F(1, 6)), (0, F(2, 3)), (F(1, 2), F(1, 6))]
for _law, _v in ((W5, F(1)), (H5, F(1, 12))):
    assert sum(w for _, w in _law) == 1 and sum(w * F(x)**2 for x, w in _law) == _v and sum(w * F(x)**4 for x, w in _law) == 3 * _v**2, (_law,)


def backward(run, name, regime, wt, time):
    """a step taken by a solve that goes backwards in time: the same expansion in the reversed path"""
    mk, ito, _, _ = SOLVERS[name]
    keep = ok(regime, time)
    ts = [t for w in range(1, wt + 1) for t in T.trees(w, 1) if keep(t)]
    if ito:
        ts = [t for t in ts if T.weight(t) == 1]  # (there is no backward Ito equation)
    if T.f not in ts:
        ts.append(T.f)
    sy = Sys(ts, 1, True)

    def fn(d):
        return sy.back(mk, d["t0"], d["h"], d["q"], time, d["W"], d["H"], d["K"])

    def prop(i, o, op):
        h, W, H = S.neg(i.h[()]), S.neg(i.W[()]), i.H[()]
        out = [("successful", o["ok"][()])]
        for k, t in enumerate(ts):
            want = T.pathwise(t, False, *map(Wrap, (h, W, H))).v
            out.append((f"tree{k}-weight{T.weight(t)}", op.near(o["d"][k], want, TOL, B)))
        return out

    def assumes(i):
        h = i.h[()]
        return [S.le(F(1, 2), h), S.le(h, 1), S.lt(0, h), S.bnot(S.eq(h, 0))] + [S.le(S.absolute(i[k][()]), 1) for k in ("t0", "q", "W", "H", "K")]

    conc = dict(t0=np.asarray(0.3), h=np.asarray(0.75), q=np.asarray(0.4), W=np.asarray(0.5), H=np.asarray(0.3), K=np.asarray(-0.6))
    run.case(f"{name}-{regime}-backward{'-time' if time else ''}", fn, {k: In() for k in ("t0", "h", "q", "W", "H", "K")}, prop, assumes,
             concretise=lambda c: dict(conc), timeout=60, eps=F(1, 2**44))


def mean(run, name, regime, p, time):
    mk, ito, _, ode = SOLVERS[name]
    keep = ok(regime, time)
    multi = regime == "general"
    m = 2 if multi else 1
    top = int(2 * p) + 1
    if top % 2:
        return  # an odd number of centred increments has mean zero on both sides
    full = max(top, 4) if ode == 2 and not multi else top
    check = lambda t: T.weight(t) == top or (full > top and t in (T.f, (0, (T.f,))))
    ts = [t for w in range(1, full + 1) for t in T.trees(w, m) if keep(t) and (w <= top or t == (0, (T.f,)))]
    sy = Sys(ts, m, not multi)
    law = []
    if multi:
        for w1, p1 in W3:
            for w2, p2 in W3:
                for h1, q1 in H3:
                    for h2, q2 in H3:
                        law.append((((w1, w2), (h1, h2)), p1 * p2 * q1 * q2))
    else:
        for w1, p1 in W5:
            for h1, q1 in H5:
                law.append(((w1, h1), p1 * q1))
    ws = np.array([[float(x) for x in np.ravel(l[0][0])] for l in law])
    hs = np.array([[float(x) for x in np.ravel(l[0][1])] for l in law])
    if not multi:
        ws, hs = ws[:, 0], hs[:, 0]

    def fn(d):
        e = d["e"]
        h = e * e
        one = lambda w, hh: sy.step(mk, d["t0"], h, d["q"], time, e * w, e * hh, 0.0 * hh)["d"]
        return jax.vmap(one)(jnp.asarray(ws), jnp.asarray(hs))

    def prop(i, o, op):
        e = i.e[()]
        out = []
        for k, t in enumerate(ts):
            if not check(t):
                continue
            w = T.weight(t)
            got = 0
            for j, (_, pr) in enumerate(law):
                got = S.add(got, S.mul(pr, o[j, k]))
            pw = 1
            for _ in range(w):
                pw = S.mul(pw, e)
            out.append((f"mean-tree{k}-weight{w}", op.near(got, S.mul(T.moment((t,), ito), pw), TOL, B)))
        return out

    def assumes(i):
        e = i.e[()]
        return [S.le(F(1, 2), e), S.le(e, 1), S.lt(0, e), S.bnot(S.eq(e, 0)), S.lt(0, S.mul(e, e))] + [S.le(S.absolute(i[k][()]), 1) for k in ("t0", "q")]

    run.case(f"{name}-{regime}-mean{'-time' if time else ''}", fn, dict(t0=In(), e=In(), q=In()), prop, assumes,
             concretise=lambda c: dict(t0=np.asarray(0.3), e=np.asarray(0.875), q=np.asarray(0.4)), timeout=60)


def run(run):
    run.bounds = ["every coloured tree up to the weight that the strong order depends on (pathwise), and the mean of those of the next weight",
                  "one step of size in [1/2,1] (mean: [1/4,1]) from any time and state, increments and Levy areas symbolic in [-1,1]",
                  "scalar noise; two noise channels for the general and commutative cases up to weight two", "agreement within 1e-9"]
    for name, (mk, ito, regimes, ode) in SOLVERS.items():
        for regime, p, wt in regimes:
            for time in (False, True):
                pathwise(run, name, regime, p, wt, time)
                if regime in ("scalar", "additive"):
                    backward(run, name, regime, wt, time)
                mean(run, name, regime, p, time)
