"""C12: interpolation of data: the linear and cubic paths pass through the data as documented, missing values are filled in as
documented, differences and derivatives are consistent, and non-increasing times are refused."""
import math
from fractions import Fraction as F
import itertools as it
import jax
import jax.numpy as jnp
import numpy as np
import diffrax as dfx
from vk import scalar as S
from vk.harness import In

AND, OR, NOT, IMP = S.band, S.bor, S.bnot, S.implies


def increasing(ts, gap=F(1, 8), B=16):
    return [S.le(S.add(a, gap), b) for a, b in zip(ts, ts[1:])] + [S.le(S.absolute(t), B) for t in ts] + [S.lt(a, b) for a, b in zip(ts, ts[1:])] + [NOT(S.eq(a, b)) for a, b in zip(ts, ts[1:])]


GRID = [0.0, 1.0, 2.5, 4.0, 4.75]


def paths(run, name, n, make, coef_shape, value, deriv, symts):
    """value(i, j, t): the documented value on interval j"""
    inp = dict(ts=In((n,)) if symts else In((n,), values=[F(x) for x in GRID[:n]]), c=In(coef_shape), te=In(), tf=In())

    def fn(d):
        p = make(d["ts"], d["c"])
        e = lambda *a, **k: jax.tree_util.tree_map(jnp.asarray, p.evaluate(*a, **k))
        D = lambda *a, **k: jax.tree_util.tree_map(jnp.asarray, p.derivative(*a, **k))
        te, tf = d["te"], d["tf"]
        return dict(l=e(te), r=e(te, left=False), fl=e(tf), fr=e(tf, left=False), il=e(te, tf), ir=e(te, tf, left=False), dl=D(te), dr=D(te, left=False), t0=p.t0, t1=p.t1)

    leaves = lambda x: jax.tree_util.tree_leaves(x)

    def prop(i, o, op):
        out = [("t0", op.eq(o["t0"][()], i.ts[0])), ("t1", op.eq(o["t1"][()], i.ts[-1]))]
        t = i.te[()]
        for j in range(n - 1):
            a, b = i.ts[j], i.ts[j + 1]
            inl = AND(S.le(a, t) if j == 0 else S.lt(a, t), S.le(t, b))
            inr = AND(S.le(a, t), S.lt(t, b) if j < n - 2 else S.le(t, b))
            for m, (l, r, dl, dr) in enumerate(zip(leaves(o["l"]), leaves(o["r"]), leaves(o["dl"]), leaves(o["dr"]))):
                v, dv = value(i, j, t, m), deriv(i, j, t, m)
                out += [(f"left-{j}-{m}", IMP(inl, op.eq(l[()], v))), (f"right-{j}-{m}", IMP(inr, op.eq(r[()], v))),
                        (f"left-derivative-{j}-{m}", IMP(inl, op.eq(dl[()], dv))), (f"right-derivative-{j}-{m}", IMP(inr, op.eq(dr[()], dv)))]
        for m, (il, fl, l, ir, fr, r) in enumerate(zip(*[leaves(o[k]) for k in ("il", "fl", "l", "ir", "fr", "r")])):
            out += [(f"increment-{m}", op.eq(il[()], S.sub(fl[()], l[()]))), (f"increment-right-{m}", op.eq(ir[()], S.sub(fr[()], r[()])))]
        return out

    def assumes(i):
        out = increasing(list(i.ts)) if symts else []
        for q in ("te", "tf"):
            out += [S.le(i.ts[0], i[q][()]), S.le(i[q][()], i.ts[-1])]
        return out + [S.le(S.absolute(x), 16) for x in i.c.reshape(-1)]

    run.case(name, fn, inp, prop, assumes, errors="forbid", timeout=90, prune=True, batch=not (symts and name.startswith("linear")))


def linear_paths(run, n, symts, tree=False):
    def make(ts, c):
        return dfx.LinearInterpolation(ts, {"a": c, "b": (2 * c,)} if tree else c)

    sl = lambda i, j: S.div(S.sub(i.c[j + 1], i.c[j]), S.sub(i.ts[j + 1], i.ts[j]))
    val = lambda i, j, t, m: S.mul(m + 1, S.add(i.c[j], S.mul(sl(i, j), S.sub(t, i.ts[j]))))
    der = lambda i, j, t, m: S.mul(m + 1, sl(i, j))
    paths(run, f"linear-{n}{'-ts' if symts else ''}{'-tree' if tree else ''}", n, make, (n,), val, der, symts)


def cubic_paths(run, n, symts, tree=False):
    def make(ts, c):
        if tree:
            return dfx.CubicInterpolation(ts, tuple({"a": x, "b": (2 * x,)} for x in c))
        return dfx.CubicInterpolation(ts, (c[0], c[1], c[2], c[3]))

    def val(i, j, t, m):
        d, c, b, a = (i.c[k, j] for k in range(4))
        u = S.sub(t, i.ts[j])
        return S.mul(m + 1, S.add(a, S.mul(u, S.add(b, S.mul(u, S.add(c, S.mul(u, d)))))))

    def der(i, j, t, m):
        d, c, b, a = (i.c[k, j] for k in range(4))
        u = S.sub(t, i.ts[j])
        return S.mul(m + 1, S.add(b, S.mul(u, S.add(S.mul(2, c), S.mul(u, S.mul(3, d))))))
    paths(run, f"cubic-{n}{'-ts' if symts else ''}{'-tree' if tree else ''}", n, make, (4, n - 1), val, der, symts)


# ---------------------------------------------------------------- missing values
def expected_fill(y, M, ts, ff, rep):
    """oracle: list of (value or None=nan) for a concrete missingness pattern"""
    n = len(y)
    obs = [None if M[k] else y[k] for k in range(n)]
    if obs[0] is None and rep is not None:
        obs[0] = rep
    out = []
    for k in range(n):
        if obs[k] is not None:
            out.append(obs[k])
            continue
        p = next((m for m in range(k, -1, -1) if obs[m] is not None), None)
        q = next((m for m in range(k, n) if obs[m] is not None), None)
        if p is None:
            out.append(None)
        elif q is None:
            out.append(obs[p] if ff else None)
        else:
            w = S.div(S.sub(ts[k], ts[p]), S.sub(ts[q], ts[p]))
            out.append(S.add(obs[p], S.mul(S.sub(obs[q], obs[p]), w)))
    return out


def same(op, x, want):
    return S.is_nan(x) if want is None else op.eq(x, want)


def patterns(n, quick):
    for M in it.product([False, True], repeat=n):
        if all(M):
            continue
        yield M


def fills(run, n):
    """every missingness pattern in one go: the pattern is static, values and times symbolic"""
    pats = list(patterns(n, run.quick))

    def fn(d):
        out = []
        ts = d["ts"]
        for M in pats:
            ys = jnp.where(jnp.array(M), jnp.nan, d["y"])
            tree = {"a": ys, "b": jnp.stack([ys, d["y"]], axis=1)}
            for ff in (False, True):
                for rep in (None, 1):
                    r = None if rep is None else {"a": d["r"], "b": jnp.stack([d["r"], d["r"]])}
                    out.append(dfx.linear_interpolation(ts, tree, fill_forward_nans_at_end=ff, replace_nans_at_start=r))
            for rep in (None, 1):
                r = None if rep is None else {"a": d["r"], "b": jnp.stack([d["r"], d["r"]])}
                out.append(dfx.rectilinear_interpolation(ts, tree, replace_nans_at_start=r))
        return out

    def prop(i, o, op):
        out = []
        k = 0
        ts, y = list(i.ts), list(i.y)
        for M in pats:
            nm = "".join("x" if m else "o" for m in M)
            for ff in (False, True):
                for rep in (None, 1):
                    want = expected_fill(y, M, ts, ff, None if rep is None else i.r[()])
                    for q in range(n):
                        out.append((f"linear-{nm}-{ff}-{rep}-{q}", AND(same(op, o[k]["a"][q], want[q]), same(op, o[k]["b"][q, 0], want[q]), op.eq(o[k]["b"][q, 1], y[q]))))
                    k += 1
            for rep in (None, 1):
                new_ts, new_ys = o[k]
                k += 1
                cur, vals = (i.r[()] if rep else None), []
                for q in range(n):
                    cur = cur if M[q] else y[q]
                    vals.append(cur)
                for q in range(2 * n - 1):
                    out.append((f"rect-t-{nm}-{q}", op.eq(new_ts[q], ts[(q + 1) // 2])))
                    out.append((f"rect-y-{nm}-{rep}-{q}", AND(same(op, new_ys["a"][q], vals[q // 2]), same(op, new_ys["b"][q, 0], vals[q // 2]), op.eq(new_ys["b"][q, 1], y[q // 2]))))
        return out

    def assumes(i):
        return increasing(list(i.ts)) + [S.le(S.absolute(x), 16) for x in list(i.y) + [i.r[()]]]

    run.case(f"fill-{n}", fn, dict(ts=In((n,)), y=In((n,)), r=In()), prop, assumes, errors="ignore", timeout=90)


# ---------------------------------------------------------------- Hermite splines with backward differences
def hermite(run, n):
    ts = [F(x) for x in GRID[:n]]
    pats = list(patterns(n, run.quick))
    variants = [(ff, rep, d0) for ff in (False, True) for rep in (None, 1) for d0 in (None, 1)]

    def fn(d):
        out = []
        T = jnp.array(GRID[:n])
        for M in pats:
            ys = jnp.where(jnp.array(M), jnp.nan, d["y"])
            for ff, rep, d0 in variants:
                cs = dfx.backward_hermite_coefficients(T, {"p": ys}, deriv0=None if d0 is None else {"p": d["g"]},
                                                       replace_nans_at_start=None if rep is None else {"p": d["r"]}, fill_forward_nans_at_end=ff)
                out.append(jnp.stack([c["p"] for c in cs]))
        return out

    def prop(i, o, op):
        out = []
        k = 0
        for M in pats:
            nm = "".join("x" if m else "o" for m in M)
            for ff, rep, d0 in variants:
                C = o[k]
                k += 1
                obs = {q: i.y[q] for q in range(n) if not M[q]}
                if M[0] and rep:
                    obs[0] = i.r[()]
                if ff and (n - 1) not in obs:
                    # a run of missing values at the end is one gap, closed at the final time by the last observed value
                    obs[n - 1] = obs[max(obs)]
                ks = sorted(obs)
                for j in range(n - 1):
                    p = max([q for q in ks if q <= j], default=None)
                    q = min([q for q in ks if q > j], default=None)
                    got = [C[m, j] for m in range(4)]  # d c b a
                    if p is None or q is None:
                        out.append((f"nan-{nm}-{ff}{rep}{d0}-{j}", S.is_nan(got[3]) if p is None else AND(*[S.is_nan(x) for x in got[:2]])))
                        continue
                    pp = max([x for x in ks if x < p], default=None)
                    h = ts[q] - ts[p]
                    slope = S.div(S.sub(obs[q], obs[p]), h)
                    if pp is not None:
                        d_at = S.div(S.sub(obs[p], obs[pp]), ts[p] - ts[pp])
                    elif d0 and p == 0:
                        d_at = i.g[()]
                    else:
                        d_at = slope
                    if pp is None and d0 and p != 0:
                        continue  # derivative at a first observation that is not the first time: unspecified
                    # the cubic on [p,q]: value and slope at p, value and slope (backward difference) at q
                    dd = S.sub(slope, d_at)
                    c3, c2, c1, c0 = S.div(S.neg(dd), h * h), S.div(S.mul(2, dd), h), d_at, obs[p]
                    u = ts[j] - ts[p]  # re-centred at knot j
                    e0 = S.add(c0, S.mul(u, S.add(c1, S.mul(u, S.add(c2, S.mul(u, c3))))))
                    e1 = S.add(c1, S.mul(u, S.add(S.mul(2, c2), S.mul(3 * u, c3))))
                    if j == p:
                        e2, e3 = c2, c3
                        for lab, g, w in zip("dcba", got, (e3, e2, e1, e0)):
                            out.append((f"coef-{lab}-{nm}-{ff}{rep}{d0}-{j}", op.near(g, w, F(1, 10**9), bounds=1)))
                    else:
                        # between observations: starts on the same curve with the same slope, reaches the next observation
                        w = ts[j + 1] - ts[j]
                        hq = ts[q] - ts[j]
                        out.append((f"curve-{nm}-{ff}{rep}{d0}-{j}", AND(op.near(got[3], e0, F(1, 10**9), bounds=1), op.near(got[2], e1, F(1, 10**9), bounds=1))))
                        at = S.add(got[3], S.mul(hq, S.add(got[2], S.mul(hq, S.add(got[1], S.mul(hq, got[0]))))))
                        out.append((f"reaches-{nm}-{ff}{rep}{d0}-{j}", op.near(at, obs[q], F(1, 10**9), bounds=1)))
        return out

    run.case(f"hermite-{n}", fn, dict(y=In((n,)), r=In(), g=In()), prop, lambda i: [S.le(S.absolute(x), 1) for x in list(i.y) + [i.r[()], i.g[()]]], timeout=90,
             concretise=lambda c: dict(y=np.array([0.3, -0.8, 0.9, 0.4, -0.5][:n]), r=np.asarray(0.7), g=np.asarray(-0.6)))


def validation(run):
    n = 3
    for nm, f in [("linear", lambda ts, y: dfx.linear_interpolation(ts, y)), ("rectilinear", lambda ts, y: dfx.rectilinear_interpolation(ts, y)),
                  ("hermite", lambda ts, y: dfx.backward_hermite_coefficients(ts, y))]:
        def prop(i, o, op, err):
            return [("refused-iff-not-increasing", op.iff(err, NOT(AND(*[S.lt(a, b) for a, b in zip(i.ts, list(i.ts)[1:])]))))]
        run.case("validate-" + nm, lambda d, f=f: f(d["ts"], d["y"]), dict(ts=In((n,)), y=In((n,))), prop,
                 lambda i: [S.le(S.absolute(x), 16) for x in list(i.ts) + list(i.y)], errors="expose", fid=False, div_ext=True)


def run(run):
    q = run.quick
    n = 4 if q else 5
    run.bounds = [f"{n} data points; every pattern of missing values with at least one present; times symbolic (increasing, at least 1/8 apart) for paths and filling, fixed non-uniform grid for Hermite coefficients; data symbolic", "agreement exact (within 1e-9 for Hermite coefficients)"]
    linear_paths(run, 3 if q else 4, True)
    linear_paths(run, n, False)
    linear_paths(run, 3, False, tree=True)
    cubic_paths(run, n, False)
    cubic_paths(run, 3, True)
    cubic_paths(run, 3, False, tree=True)
    fills(run, 3 if q else 4)
    hermite(run, 4 if q else 5)
    validation(run)
