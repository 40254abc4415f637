"""C20: terms. For every kind of term the product of vector field and control is what its formula says, agrees between the fused and the two-stage
evaluation, is linear in the control; increments over adjacent intervals add up; wrapping, summing and adjoining act as documented."""
from fractions import Fraction as F
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np
import diffrax as dfx
from diffrax._term import AdjointTerm, WrapTerm
from vk import scalar as S
from vk.harness import In
from .c17 import Noise

TOL = F(1, 10**9)
B = lambda at: 1
leaves = jtu.tree_leaves


class Poly(dfx.AbstractPath):
    """a path that is a quadratic polynomial; pieces of any shape"""
    c: object

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def evaluate(self, t0, t1=None, left=True):
        X = lambda t: jtu.tree_map(lambda c: c[0] + c[1] * t + c[2] * t * t, self.c)
        if t1 is None:
            return X(t0)
        return jtu.tree_map(lambda a, b: b - a, X(t0), X(t1))


class Field(eqx.Module):
    """a vector field with parameters of its own; y = (a: scalar, b: (2,)), quadratic"""
    w: object

    def vals(self, t, y, args):
        a, b = y["a"], y["b"]
        w, p = self.w, args["p"]
        return dict(a=w[0] * a * b[0] + p[0] * b[1] + t, b=jnp.stack([w[1] * b[0] * b[1] + p[1] * a * a, w[2] * a + p[0] * p[1] * b[1] + t * w[0]]))

    def __call__(self, t, y, args):
        return self.vals(t, y, args)


class Diff(eqx.Module):
    """leaf (y shape..., control shape...): control of the same structure, leaves of shape (2,) and ()"""
    w: object

    def __call__(self, t, y, args):
        a, b = y["a"], y["b"]
        w, p = self.w, args["p"]
        return dict(a=jnp.stack([w[0] * a + p[0] * b[0], w[1] * b[1] * t]), b=jnp.stack([w[2] * a * b[1], p[1] * b[0] + w[0]]))


class Op(eqx.Module):
    w: object
    kind: str = eqx.field(static=True)

    def __call__(self, t, y, args):
        b, w, p = y, self.w, args["p"]
        if self.kind == "matrix":
            return lx.MatrixLinearOperator(jnp.stack([jnp.stack([w[0] * b[0], w[1] + t, p[0] * b[1]]), jnp.stack([w[2] * b[1] * b[0], p[1] * t, w[0] * p[0]])]))
        return lx.DiagonalLinearOperator(jnp.stack([w[0] * b[1] + t, p[0] * b[0] + w[1]]))


def setup(kind):
    """-> build(d) -> (term, y, args, control of a given vector, explicit product)"""
    args = lambda d: dict(p=d["p"], k=3)
    ya = lambda d: dict(a=d["y"][0], b=d["y"][1:])

    def ode(d):
        f = Field(d["w"])
        return dfx.ODETerm(f), ya(d), args(d), lambda c: c[0], lambda t, c: jtu.tree_map(lambda v: v * c[0], f.vals(t, ya(d), args(d)))

    def ode_broadcast(d):
        f = lambda t, y, a: dict(a=d["w"][0] * y["a"], b=d["w"][1] * y["a"] + t)
        y = ya(d)
        return dfx.ODETerm(f), y, args(d), lambda c: c[0], lambda t, c: dict(a=c[0] * d["w"][0] * y["a"], b=c[0] * jnp.stack([d["w"][1] * y["a"] + t] * 2))

    def ctl(c):
        return dict(a=c[:2], b=c[2])

    def cde(d):
        g = Diff(d["w"])

        def ex(t, c):
            v = g(t, ya(d), args(d))
            return dict(a=v["a"][0] * c[0] + v["a"][1] * c[1], b=v["b"] * c[2])
        return dfx.ControlTerm(g, Poly(dict(a=d["x"][:, :2], b=d["x"][:, 2]))), ya(d), args(d), ctl, ex

    def cde_matrix(d):
        g = Op(d["w"], "matrix")
        y = d["y"][:2]

        def ex(t, c):
            m = g(t, y, args(d)).matrix
            return jnp.stack([m[r, 0] * c[0] + m[r, 1] * c[1] + m[r, 2] * c[2] for r in (0, 1)])
        return dfx.ControlTerm(g, Poly(d["x"])), y, args(d), lambda c: c[:3], ex

    def cde_diag(d):
        g = Op(d["w"], "diag")
        y = d["y"][:2]

        def ex(t, c):
            m = g(t, y, args(d)).diagonal
            return jnp.stack([m[0] * c[0], m[1] * c[1]])
        return dfx.ControlTerm(g, Poly(d["x"][:, :2])), y, args(d), lambda c: c[:2], ex

    def call(d):
        base = cde(d)
        X = Poly(dict(a=d["x"][:, :2], b=d["x"][:, 2]))
        return (dfx.ControlTerm(Diff(d["w"]), lambda a, b: X.evaluate(a, b)),) + base[1:]

    def multi(d):
        (t1, y, a, c1, e1), (t2, _, _, c2, e2) = ode(d), cde(d)
        return dfx.MultiTerm(t1, t2), y, a, lambda c: (c1(c[3:]), c2(c)), lambda t, c: jtu.tree_map(lambda u, v: u + v, e1(t, c[3:]), e2(t, c))

    def lang(d, drift):
        y = (dict(x=d["y"][0], z=d["y"][1:]), dict(x=d["p"][0], z=d["w"][:2]))
        gam, u = dict(x=d["g"][0], z=d["g"][1]), d["g"][2]
        f = lambda x, a: dict(x=x["x"] * x["z"][0], z=x["z"] * d["w"][2])
        if drift:
            def ex(t, c):
                x, v = y
                fx = f(x, None)
                return jtu.tree_map(lambda q: q * c[0], (v, dict(x=-gam["x"] * v["x"] - u * fx["x"], z=-gam["z"] * v["z"] - u * fx["z"])))
            return dfx.UnderdampedLangevinDriftTerm(gam, u, f), y, None, lambda c: c[0], ex
        X = Poly(dict(x=d["x"][:, 0], z=d["x"][:, 1:]))

        def ex(t, c):
            s = lambda g: jnp.sqrt(2 * g * u)
            return (dict(x=jnp.zeros(()), z=jnp.zeros(2)), dict(x=s(gam["x"]) * c[0], z=s(gam["z"]) * c[1:3]))
        return dfx.UnderdampedLangevinDiffusionTerm(gam, u, X), y, None, lambda c: dict(x=c[0], z=c[1:3]), ex
    return dict(ode=ode, ode_broadcast=ode_broadcast, cde=cde, cde_matrix=cde_matrix, cde_diag=cde_diag, callable=call, multi=multi,
                langevin_drift=lambda d: lang(d, True), langevin_diffusion=lambda d: lang(d, False))[kind]


def inputs():
    return dict(t=In(), h=In(), k=In(), y=In((3,)), w=In((3,)), p=In((2,)), x=In((3, 3)), c1=In((4,)), c2=In((4,)), r=In((2,)), g=In((3,)), a=In((3,)))


def assumes(i):
    out = [S.le(S.absolute(x), 1) for k in ("t", "y", "w", "p", "x", "c1", "c2", "r", "a") for x in np.asarray(i[k], dtype=object).reshape(-1)]
    out += [z for x in i.g for z in (S.le(F(1, 8), x), S.le(x, 1))]
    for k in "hk":
        out += [S.le(F(1, 8), i[k][()]), S.le(i[k][()], 1)]
    return out


def pairs(run, kind, fn, ins=None, ass=None, eps=None, mode="near"):
    """fn returns {label: (tree, tree)}"""
    def prop(i, o, op):
        out = []
        for lab, (a, b) in o.items():
            la, lb = leaves(a), leaves(b)
            assert len(la) == len(lb), lab
            for n, (u, v) in enumerate(zip(la, lb)):
                if u.shape != v.shape:
                    out.append((f"{lab}-shape{n}", False))
                    continue
                for k, (p, q) in enumerate(zip(np.ravel(u), np.ravel(v))):
                    out.append((f"{lab}{n}.{k}", op.near(p, q, TOL, B)))
        return out
    ins = ins or inputs()
    run.case(kind, fn, ins, prop, ass or assumes, timeout=60, concretise=lambda c: {k: (v if np.shape(v) == () and k in "hk" else v) for k, v in c.items()} | vals(ins))


_R = np.random.RandomState(5)


def vals(ins):
    out = {}
    r = np.random.RandomState(5)
    for k in sorted(ins):
        v = r.randint(-16, 17, size=ins[k].shape) / 16.0 if ins[k].kind == "real" else None
        if v is None:
            continue
        v = np.asarray(v, dtype=float)
        if k in ("h", "k", "g"):
            v = np.abs(v) / 2 + 0.25
        out[k] = v
    return out


def laws(run, kind):
    build = setup(kind)

    def fn(d):
        term, y, args, mk, ex = build(d)
        t = d["t"]
        vf = term.vf(t, y, args)
        c1, c2 = mk(d["c1"]), mk(d["c2"])
        r, s = d["r"]
        comb = jtu.tree_map(lambda a, b: r * a + s * b, c1, c2)
        P = lambda c: term.prod(vf, c)
        C = term.contr
        t1, t2 = t + d["h"], t + d["h"] + d["k"]
        out = dict(formula=(P(c1), ex(t, d["c1"])), fused=(term.vf_prod(t, y, args, c1), P(c1)), linear=(P(comb), jtu.tree_map(lambda a, b: r * a + s * b, P(c1), P(c2))),
                   additive=(jtu.tree_map(lambda a, b: a + b, C(t, t1), C(t1, t2)), C(t, t2)))
        # time reversal
        for dirn in (1, -1):
            w = WrapTerm(term, jnp.asarray(dirn)) if not isinstance(term, dfx.MultiTerm) else None
            if w is None:
                continue
            same = lambda q: q if dirn == 1 else jtu.tree_map(lambda z: -z, q)
            out[f"wrap{dirn}-contr"] = (w.contr(t, t1), C(t, t1) if dirn == 1 else same(C(-t1, -t)))
            out[f"wrap{dirn}-vf"] = (jtu.tree_map(jnp.asarray, w.vf(t, y, args)), jtu.tree_map(jnp.asarray, term.vf(dirn * t, y, args)))
            out[f"wrap{dirn}-prod"] = (w.prod(vf, c1), P(c1))
            out[f"wrap{dirn}-fused"] = (w.vf_prod(t, y, args, c1), term.vf_prod(dirn * t, y, args, c1))
        return out
    pairs(run, f"laws-{kind}", fn)


def wrap_levy(run):
    def fn(d):
        out = {}
        for dirn in (1, -1):
            bm = Noise(d["h"], d["x"][0], d["x"][1], d["x"][2])
            term = dfx.ControlTerm(lambda t, y, a: y, bm)
            w = WrapTerm(term, jnp.asarray(dirn))
            got = w.contr(d["t"], d["t"] + d["h"], use_levy=True)
            out[f"levy{dirn}"] = (dict(W=got.W, H=got.H, K=got.K), dict(W=dirn * d["x"][0], H=d["x"][1], K=dirn * d["x"][2]))
        return out
    pairs(run, "wrap-levy", fn)


def to_ode(run):
    def fn(d):
        y, args = dict(a=d["y"][0], b=d["y"][1:]), dict(p=d["p"])
        g = Diff(d["w"])
        ctl = lambda c: dict(a=c[:2], b=c[2])
        X = Poly(dict(a=d["x"][:, :2], b=d["x"][:, 2]))
        term = dfx.ControlTerm(g, X).to_ode()
        t = d["t"]
        v = g(t, y, args)
        dx = d["x"][1] + 2 * t * d["x"][2]
        lin = dfx.LinearInterpolation(ts=jnp.asarray([-2.0, 3.0]), ys=jnp.stack([d["c1"][:3], d["c2"][:3]]))
        Xl = dfx.ControlTerm(Op(d["w"], "matrix"), lin).to_ode()
        m = Op(d["w"], "matrix")(t, d["y"][:2], args).matrix
        H = 5.0
        slope = d["c2"][:3] - d["c1"][:3]
        return dict(ode=(term.vf(t, y, args), dict(a=v["a"][0] * dx[0] + v["a"][1] * dx[1], b=v["b"] * dx[2])), contr=(term.contr(t, t + d["h"]), d["h"]),
                    linear=(Xl.vf(t, d["y"][:2], args) * H, jnp.stack([m[r, 0] * slope[0] + m[r, 1] * slope[1] + m[r, 2] * slope[2] for r in (0, 1)])))
    pairs(run, "to-ode", fn)


def adjoint(run, kind):
    """the augmented system of the continuous adjoint: y' = f, a' = -a df/dy, (parameters)' = -a df/d(args), -a df/d(term)"""
    def fn(d):
        y, args = dict(a=d["y"][0], b=d["y"][1:]), dict(p=d["p"], k=3)
        ay = dict(a=d["a"][0], b=d["a"][1:])
        t = d["t"]
        w, p, c = d["w"], d["p"], d["c1"]
        a, b = y["a"], y["b"]
        A = d["a"]
        if kind == "ode":
            term = dfx.ODETerm(Field(w))
            ctl = c[0]
            # (rows: outputs; columns: a, b0, b1) and parameters w0 w1 w2, p0 p1
            J = [[w[0] * b[0], w[0] * a, p[0]], [2 * p[1] * a, w[1] * b[1], w[1] * b[0]], [w[2], 0 * t, p[0] * p[1]]]
            Jw = [[a * b[0], 0 * t, 0 * t], [0 * t, b[0] * b[1], 0 * t], [t, 0 * t, a]]
            Jp = [[b[1], 0 * t], [0 * t, a * a], [p[1] * b[1], p[0] * b[1]]]
            J, Jw, Jp = [[[q * c[0] for q in r] for r in M] for M in (J, Jw, Jp)]
        else:
            z = 0 * t
            term = dfx.ControlTerm(Diff(w), Poly(dict(a=d["x"][:, :2], b=d["x"][:, 2])))
            ctl = dict(a=c[:2], b=c[2])
            # a' = (w0 a + p0 b0) c0 + w1 b1 t c1;  b0' = w2 a b1 c2;  b1' = (p1 b0 + w0) c2
            J = [[w[0] * c[0], p[0] * c[0], w[1] * t * c[1]], [w[2] * b[1] * c[2], z, w[2] * a * c[2]], [z, p[1] * c[2], z]]
            Jw = [[a * c[0], b[1] * t * c[1], z], [z, z, a * b[1] * c[2]], [c[2], z, z]]
            Jp = [[b[0] * c[0], z], [z, z], [z, b[0] * c[2]]]
        vj = lambda M, n: jnp.stack([-(A[0] * M[0][k] + A[1] * M[1][k] + A[2] * M[2][k]) for k in range(n)])
        adj = AdjointTerm(term)
        aug = (y, ay, jtu.tree_map(jnp.zeros_like, eqx.filter(args, eqx.is_inexact_array)), jtu.tree_map(jnp.zeros_like, eqx.filter(term, eqx.is_inexact_array)))
        dy, day, dargs, dterm = adj.vf_prod(t, aug, args, ctl)
        two = adj.prod(adj.vf(t, aug, args), ctl)
        g = vj(J, 3)
        return dict(y=(dy, term.vf_prod(t, y, args, ctl)), a=(day, dict(a=g[0], b=g[1:])), args=(dargs["p"], vj(Jp, 2)), term=(dterm.vector_field.w, vj(Jw, 3)),
                    two_stage=(two, (dy, day, dargs, dterm)), contr=(adj.contr(t, t + d["h"]), term.contr(t, t + d["h"])))
    pairs(run, f"adjoint-{kind}", fn)


def run(run):
    run.bounds = ["states of three numbers in two leaves (or a vector of two), controls of up to four numbers, polynomial vector fields with symbolic parameters, quadratic paths",
                  "all values in [-1,1] (interval lengths in [1/8,1]); agreement within 1e-9"]
    for kind in ("ode", "ode_broadcast", "cde", "cde_matrix", "cde_diag", "callable", "multi", "langevin_drift", "langevin_diffusion"):
        laws(run, kind)
    wrap_levy(run)
    to_ode(run)
    adjoint(run, "ode")
    adjoint(run, "cde")
