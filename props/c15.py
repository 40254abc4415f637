"""C15/C16: Brownian paths: the virtual Brownian tree is one path (additive, reproducible), with exactly the law of Brownian motion
and its space-time Levy areas; likewise for the path that is drawn afresh for every interval."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In
from .gauss import Gauss

LEVY = {"W": dfx.BrownianIncrement, "H": dfx.SpaceTimeLevyArea, "K": dfx.SpaceTimeTimeLevyArea}
VAR = {"W": F(1), "H": F(1, 12), "K": F(1, 720)}
LEN = 3
LO = F(1, 256)


def chen(X, Y, a, b, levy):
    """areas over [0,a+b] from those over [0,a] and [a,a+b], from their definitions as integrals of the path; as linear
    combinations (list of (coefficient, part)): W, (a+b) H and (a+b)^2 K"""
    add, mul, sub = S.add, S.mul, S.sub
    h = add(a, b)
    sc = lambda c, ts: [(mul(c, x), v) for x, v in ts]
    W = [(1, X["W"]), (1, Y["W"])]
    out = dict(W=W)
    if levy == "W":
        return out
    I1 = lambda Z, l: [(l, Z["H"]), (mul(F(1, 2), l), Z["W"])]
    i1a, i1b = I1(X, a), I1(Y, b)
    i1 = i1a + i1b + [(b, X["W"])]
    out["H"] = i1 + sc(mul(F(-1, 2), h), W)
    if levy == "H":
        return out
    I2 = lambda Z, l, i: sc(mul(F(1, 2), l), i) + [(mul(F(1, 12), mul(l, l)), Z["W"]), (mul(-1, mul(l, l)), Z["K"])]
    i2 = I2(X, a, i1a) + [(mul(F(1, 2), sub(mul(h, h), mul(a, a))), X["W"])] + I2(Y, b, i1b) + sc(a, i1b)
    out["K"] = sc(mul(F(1, 2), h), i1) + sc(-1, i2) + sc(mul(F(1, 12), mul(h, h)), W)
    return out


def parts(v, idx=()):
    return {k: v[k][idx] for k in ("W", "H", "K") if k in v}


def vbt(run, levy, L, ca, cb):
    n = 2**L
    G = Gauss()
    ks = ["W", "H", "K"][: "WHK".index(levy) + 1]

    def fn(d):
        t0 = d["t0"]
        p = dfx.VirtualBrownianTree(t0, t0 + LEN, LEN / n, (), jax.random.key(7), levy_area=LEVY[levy])
        r = t0 + LEN * (ca + d["x"]) / n
        q = t0 + LEN * (cb + d["y"]) / n
        f = lambda v: {k: getattr(v, k) for k in ["dt"] + ks}
        return dict(r=f(p.evaluate(r, use_levy=True)), q=f(p.evaluate(q, use_levy=True)), i=f(p.evaluate(r, q, use_levy=True)),
                    w=p.evaluate(r, q), z=f(p.evaluate(t0, r, use_levy=True)), z0=f(p.evaluate(t0, use_levy=True)), rev=f(p.evaluate(q, r, use_levy=True)))

    def assumes(i):
        x, y = i.x[()], i.y[()]
        out = [S.le(S.absolute(i.t0[()]), 4)]
        if ca == cb:
            return out + [S.le(LO, x), S.le(x, F(1, 2)), S.le(F(1, 2) + LO, y), S.le(y, 1)]
        return out + [S.le(LO, x), S.le(x, 1), S.le(LO, y), S.le(y, 1)]

    def prop(i, o, op):
        facts = assumes(i)
        out = []
        a = S.mul(F(LEN, n), S.add(i.x[()], ca))
        h = S.mul(F(LEN, n), S.add(i.y[()], cb))
        b = S.sub(h, a)
        B = lambda at: 4 if str(at) == "t0" else 1
        z = lambda d: G.zero(op, d, facts, bounds=B)
        same = lambda terms: G.same(op, terms, facts, bounds=B)
        for lab, key, want in (("start", "r", a), ("end", "q", h), ("between", "i", b), ("from-start", "z", a)):
            out.append((f"dt-{lab}", z(S.sub(G.mean(o[key]["dt"][()], facts), want))))
        X, Y, Q = parts(o["r"]), parts(o["i"]), parts(o["q"])
        cov = lambda u, v: G.cov(u, v, facts)
        # each interval: variances, and no correlation between increment and areas
        sets = [("start", X, a), ("end", Q, h)] + ([("between", Y, b)] if ca != cb else [])
        for lab, V, l in sets:
            for k1 in ks:
                for k2 in ks[ks.index(k1):]:
                    out.append((f"law-{lab}-{k1}{k2}", z(S.sub(cov(V[k1], V[k2]), S.mul(VAR[k1], l) if k1 == k2 else 0))))
                out.append((f"centred-{lab}-{k1}", z(G.mean(V[k1], facts))))
        if ca != cb:
            for k1 in ks:
                for k2 in ks:
                    out.append((f"independent-{k1}{k2}", z(cov(X[k1], Y[k2]))))
        # one path: the pieces combine to the whole
        hp = {"W": 1, "H": h, "K": S.mul(h, h)}
        for k, ts in chen(X, Y, a, b, levy).items():
            out.append((f"additive-{k}", same(ts + [(S.mul(-1, hp[k]), Q[k])])))
        out.append(("plain-W", same([(1, o["w"][()]), (-1, Y["W"])])))
        for k in ks:
            out.append((f"from-start-{k}", same([(1, o["z"][k][()]), (-1, X[k])])))
            out.append((f"empty-{k}", same([(1, o["z0"][k][()])])))
        out.append(("reversed-W", same([(1, o["rev"]["W"][()]), (1, Y["W"])])))
        return out

    run.case(f"tree-{levy}-{L}-{ca}{cb}", fn, dict(t0=In(), x=In(), y=In()), prop, assumes, handlers=G.handlers(), replay_fn=G.replay(fn), fid=False, timeout=60,
             concretise=lambda c: dict(t0=np.asarray(0.7), x=np.asarray(0.3), y=np.asarray(0.8)), errors="ignore", while_bound=L + 2)


def run(run):
    L = 2 if run.quick else 3
    run.bounds = [f"virtual Brownian tree of depth {L}: every pair of cells, both query times anywhere in their cells (1/256 of a cell away from the left end); any t0, length {LEN}",
                  "normal draws with different keys are independent standard normals (jax.random trusted)", "agreement within 1e-9"]
    for levy in "WHK":
        for ca in range(2**L):
            for cb in range(ca, 2**L):
                vbt(run, levy, L, ca, cb)


# ------------------------------------------------------------------ C16
def unsafe(run, levy):
    """fresh draws for every interval"""
    G = Gauss()
    ks = ["W", "H", "K"][: "WHK".index(levy) + 1]

    def fn(d):
        p = dfx.UnsafeBrownianPath((), jax.random.key(3), levy_area=LEVY[levy])
        s, u, v = d["s"], d["s"] + d["a"], d["s"] + d["a"] + d["b"]
        f = lambda v: {k: getattr(v, k) for k in ["dt"] + ks}
        return dict(x=f(p.evaluate(s, u, use_levy=True)), y=f(p.evaluate(u, v, use_levy=True)), w=p.evaluate(s, u), again=f(p.evaluate(s, u, use_levy=True)),
                    zero=f(p.evaluate(d["a"], use_levy=True)))

    def assumes(i):
        return [S.le(LO, i[k][()]) for k in "ab"] + [S.le(i[k][()], 4) for k in "ab"] + [S.le(LO, i.s[()]), S.le(i.s[()], 4)]

    def prop(i, o, op):
        facts = assumes(i)
        a, b = i.a[()], i.b[()]
        B = lambda at: 4
        z = lambda d: G.zero(op, d, facts, bounds=B)
        X, Y, Z = parts(o["x"]), parts(o["y"]), parts(o["zero"])
        out = []
        for lab, key, V, l in (("first", "x", X, a), ("second", "y", Y, b), ("from-zero", "zero", Z, a)):
            out.append((f"dt-{lab}", z(S.sub(G.mean(o[key]["dt"][()], facts), l))))
            for k1 in ks:
                for k2 in ks[ks.index(k1):]:
                    out.append((f"law-{lab}-{k1}{k2}", z(S.sub(G.cov(V[k1], V[k2], facts), S.mul(VAR[k1], l) if k1 == k2 else 0))))
                out.append((f"centred-{lab}-{k1}", z(G.mean(V[k1], facts))))
        for k1 in ks:
            for k2 in ks:
                out.append((f"independent-{k1}{k2}", z(G.cov(X[k1], Y[k2], facts))))
            out.append((f"reproducible-{k1}", G.same(op, [(1, X[k1]), (-1, o["again"][k1][()])], facts, bounds=B)))
        return out

    run.case(f"unsafe-{levy}", fn, dict(s=In(), a=In(), b=In()), prop, assumes, handlers=G.handlers(), replay_fn=G.replay(fn), fid=False, timeout=60,
             concretise=lambda c: dict(s=np.asarray(0.7), a=np.asarray(0.3), b=np.asarray(0.8)))


def leaves(run, levy, tree):
    """the components of a PyTree-valued Brownian motion are independent, and each has the law"""
    G = Gauss()
    ks = ["W", "H", "K"][: "WHK".index(levy) + 1]
    shape = {"a": jax.ShapeDtypeStruct((), jnp.float64), "b": [jax.ShapeDtypeStruct((2,), jnp.float64), jax.ShapeDtypeStruct((1, 2), jnp.float64)]}

    def fn(d):
        if tree:
            p = dfx.VirtualBrownianTree(0.5, 0.5 + LEN, LEN / 2, shape, jax.random.key(7), levy_area=LEVY[levy])
            v = p.evaluate(0.5 + LEN * d["x"] / 2, 0.5 + LEN * (1 + d["y"]) / 2, use_levy=True)
        else:
            p = dfx.UnsafeBrownianPath(shape, jax.random.key(7), levy_area=LEVY[levy])
            v = p.evaluate(0.5 + LEN * d["x"] / 2, 0.5 + LEN * (1 + d["y"]) / 2, use_levy=True)
        return {k: getattr(v, k) for k in ["dt"] + ks}

    def assumes(i):
        return [S.le(LO, i[k][()]) for k in "xy"] + [S.le(i[k][()], 1) for k in "xy"]

    def prop(i, o, op):
        facts = assumes(i)
        l = S.mul(F(LEN, 2), S.sub(S.add(1, i.y[()]), i.x[()]))
        z = lambda d: G.zero(op, d, facts, bounds=1)
        out = []
        comps = {}
        for k in ks:
            ls = jax.tree_util.tree_leaves(o[k])
            comps[k] = [x for leaf in ls for x in leaf.reshape(-1)]
            assert len(comps[k]) == 5 and [x.shape for x in ls] == [(), (2,), (1, 2)]
        for q, x in enumerate(jax.tree_util.tree_leaves(o["dt"])):
            out.append((f"dt-{q}", z(S.sub(G.mean(x.reshape(-1)[0], facts), l))))
        for k1 in ks:
            for k2 in ks[ks.index(k1):]:
                for p in range(5):
                    for q in range(5):
                        if k1 == k2 and q < p:
                            continue
                        want = S.mul(VAR[k1], l) if (k1 == k2 and p == q) else 0
                        out.append((f"cov-{k1}{p}-{k2}{q}", z(S.sub(G.cov(comps[k1][p], comps[k2][q], facts), want))))
        return out

    run.case(f"leaves-{'tree' if tree else 'unsafe'}-{levy}", fn, dict(x=In(), y=In()), prop, assumes, handlers=G.handlers(), replay_fn=G.replay(fn), fid=False, timeout=60,
             concretise=lambda c: dict(x=np.asarray(0.3), y=np.asarray(0.8)), while_bound=4)


def run_c16(run):
    run.bounds = ["two adjacent intervals of any lengths in [1/256,4] for the path with fresh draws; a PyTree of three leaves (five components) for both kinds of path, tree of depth 1",
                  "normal draws with different keys are independent standard normals (jax.random trusted); bit patterns of different times are different", "agreement within 1e-9"]
    for levy in "WHK":
        unsafe(run, levy)
        for tree in (True, False):
            leaves(run, levy, tree)
