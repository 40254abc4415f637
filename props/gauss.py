"""Expectations over the normal draws of a symbolically executed function: every draw is an independent standard normal
variable named by its key, so that covariances of results that are linear in the draws are polynomials in the other inputs.
The replay runs the real code with each draw set to one in turn."""
from fractions import Fraction as F
import jax
import jax.numpy as jnp
import numpy as np
import z3
from vk import scalar as S
from vk import interp as I
from vk.scalar import P, Key


class Gauss:
    def __init__(self):
        self.ctx = None
        self.draws = {}    # atom id -> name
        self._mem = {}
        self.calls, self.mv = {}, {}

    # ---- symbolic side
    def handlers(self):
        h = I.draw_handler("N")
        def normal(ctx, eqn, *args):
            self.ctx = ctx
            return h(ctx, eqn, *args)

        def mvn(ctx, eqn, *args):
            self.ctx = ctx
            key = [a for a in args if a.size and isinstance(a.reshape(-1)[0], Key)]
            covs = [a for a in args if a.ndim >= 2 and a.shape[-1] == a.shape[-2]]
            if len(key) != 1 or key[0].shape != () or len(covs) != 1:
                raise I.Unsupported("multivariate normal")
            means = [a for a in args if a is not key[0] and a is not covs[0]]
            C = covs[0]
            n = C.shape[-1]
            shape = eqn.outvars[0].aval.shape
            k = key[0][()]
            if k.k[0] == "ite":
                raise I.Unsupported("multivariate normal with undetermined key")
            # draws from one key with different covariances are correlated in a way that depends on the factorisation used
            tag = self.calls.setdefault((I.key_name(k), tuple(C.reshape(-1))), len(self.calls))
            out = I.obj(shape)
            for i in np.ndindex(*shape):
                v = 0
                if not S._num(C[i[-1], i[-1]]) or C[i[-1], i[-1]] != 0:
                    nm = f"M{tag}[{I.key_name(k)}]{i}"
                    v = ctx.normals[nm] = S.real(nm)
                    self.mv[atom_id(v)] = (I.key_name(k), i[:-1], tag, C, i[-1])
                out[i] = S.add(v, means[0].reshape(-1)[i[-1]]) if means else v
            return [out]
        return {"call:_normal": normal, "call:_multivariate_normal": mvn}

    def split(self, x, facts):
        """x -> {draw atom: coefficient}, with () for the part without draws"""
        if not isinstance(x, P):
            return {(): x} if x != 0 else {}
        key = x.key()
        if key in self._mem:
            return self._mem[key]
        ids = {atom_id(v) for v in self.ctx.normals.values() if isinstance(v, P)}
        x = resolve(x, facts)
        x = self.roots(x)
        out = {}
        if not isinstance(x, P):
            return {(): x}
        for m, c in x.d.items():
            hit = [(i, n) for i, n in m if i in ids]
            rest = tuple((i, n) for i, n in m if i not in ids)
            if any(n != 1 for _, n in hit) or len(hit) > 1:
                raise I.Unsupported("not linear in the draws")
            k = hit[0][0] if hit else ()
            out[k] = S.add(out.get(k, 0), P({rest: c}) if rest else c)
        self._mem[key] = out
        return out

    def roots(self, x):
        """replace even powers of square roots"""
        sq = {}
        for arg, r in self.ctx._sqrt.items():
            s = S.as_single(r)
            if s is not None and len(s[1]) == 1 and s[1][0][1] == 1 and s[0] == 1:
                sq[s[1][0][0]] = arg
        for _ in range(6):
            if not isinstance(x, P) or not any(i in sq and abs(n) >= 2 for m in x.d for i, n in m):
                return x
            tot = 0
            for m, c in x.d.items():
                t, rest = c, []
                for i, n in m:
                    if i in sq and abs(n) >= 2:
                        q, r = (abs(n) // 2), abs(n) % 2
                        e = S.ppow(sq[i], q if n > 0 else -q)
                        t = S.mul(t, e)
                        if r:
                            rest.append((i, r if n > 0 else -r))
                    else:
                        rest.append((i, n))
                tot = S.add(tot, S.mul(t, P({tuple(rest): 1})) if rest else t)
            x = tot
        return x

    def cov(self, a, b, facts=()):
        if isinstance(a, Vec):
            return S.from_float(float(np.dot(a.v, b.v)))
        A, B = self.split(a, facts), self.split(b, facts)
        tot = 0
        for i, c in A.items():
            if i == ():
                continue
            for j, d in B.items():
                if j == ():
                    continue
                g = 1 if i == j else 0
                if i in self.mv and j in self.mv and self.mv[i][:2] == self.mv[j][:2]:
                    ma, mb = self.mv[i], self.mv[j]
                    g = ma[3][ma[4], mb[4]] if ma[2] == mb[2] else S.real(f"crosscov!{min(i, j)}!{max(i, j)}")
                if not (isinstance(g, int) and g == 0):
                    tot = S.add(tot, S.mul(S.mul(c, d), g))
        return self.roots(tot)

    def mean(self, a, facts=()):
        if isinstance(a, Vec):
            return S.from_float(float(a.m))
        return self.split(a, facts).get((), 0)

    def same(self, op, terms, facts=(), bounds=1):
        """the linear combination (list of (coefficient, result)) is zero for every value of the draws"""
        if op.replay:
            m = sum(float(c) * (float(v.m) if isinstance(v, Vec) else float(v)) for c, v in terms)
            w = sum(float(c) * v.v for c, v in terms if isinstance(v, Vec))
            return bool(abs(m) <= 1e-7 and np.all(np.abs(w) <= 1e-7))
        d = 0
        for c, v in terms:
            d = S.add(d, S.mul(c, v))
        return S.band(self.zero(op, self.mean(d, facts), facts, bounds=bounds), self.zero(op, self.cov(d, d, facts), facts, F(1, 10**13), bounds))

    def zero(self, op, d, facts=(), tol=F(1, 10**9), bounds=1):
        """d (polynomial in inputs and inverses) vanishes up to rounding of the constants in the code"""
        if isinstance(d, float) or op.replay:
            return bool(abs(float(d)) <= 1e-7 * (1 if tol >= F(1, 10**9) else 1e-5))
        d = self.roots(resolve(d, facts))
        d = clear(d)
        return op.near(d, 0, tol, bounds=bounds)

    # ---- replay on the real code
    def replay(self, fn):
        def run(conc):
            table = Draws()
            d = {n: jnp.asarray(v) for n, v in conc.items()}
            with table, jax.disable_jit():
                base = [np.asarray(x, float) for x in jax.tree_util.tree_leaves(fn(d))]
                n = table.n
                rows = []
                for k in range(n):
                    table.active = k
                    rows.append([np.asarray(x, float) for x in jax.tree_util.tree_leaves(fn(d))])
                table.active = None
                tree = jax.tree_util.tree_structure(fn(d))
            outs = []
            for q, b in enumerate(base):
                o = I.obj(b.shape)
                for idx in np.ndindex(*b.shape):
                    o[idx] = Vec(b[idx], np.array([rows[k][q][idx] - b[idx] for k in range(n)]))
                outs.append(o)
            return jax.tree_util.tree_unflatten(tree, outs)
        return run


def atom_id(p):
    (m, c), = p.d.items()
    return m[0][0]


class Vec:
    """concrete result: mean and coefficients of the draws"""
    def __init__(self, m, v):
        self.m, self.v = m, v


class Draws:
    """replaces the normal draws of jax.random by indicator functions of one draw at a time"""
    def __init__(self):
        self.idx, self.active = {}, None

    @property
    def n(self):
        return len(self.idx)

    def value(self, key, i):
        k = (bytes(np.asarray(jax.random.key_data(key)).tobytes()), i)
        j = self.idx.setdefault(k, len(self.idx))
        return 1.0 if j == self.active else 0.0

    def normal(self, key, shape=(), dtype=jnp.float64, **kw):
        out = np.zeros(shape)
        for i in np.ndindex(*shape):
            out[i] = self.value(key, i)
        return jnp.asarray(out, dtype)

    def mvn(self, key, mean, cov, shape=None, dtype=None, method="cholesky", **kw):
        w, V = np.linalg.eigh(np.asarray(cov, float))
        A = V * np.sqrt(np.maximum(w, 0))
        shape = tuple(shape or ())
        out = np.zeros(shape + (len(w),))
        for i in np.ndindex(*shape):
            out[i] = A @ np.array([self.value(key, i + (q,)) for q in range(len(w))]) + np.asarray(mean)
        return jnp.asarray(out)

    def __enter__(self):
        self.saved = jax.random.normal, jax.random.multivariate_normal
        jax.random.normal, jax.random.multivariate_normal = self.normal, self.mvn

    def __exit__(self, *a):
        jax.random.normal, jax.random.multivariate_normal = self.saved


def resolve(x, facts):
    """replace if-then-else atoms whose condition is decided by the assumptions"""
    if not isinstance(x, P):
        return x
    for _ in range(64):
        hit = next((i for m in x.d for i, n in m if i in S._ITE), None)
        if hit is None:
            return x
        c, a, b = S._ITE[hit]
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*[f for f in facts if not isinstance(f, bool)])
        if s.check(z3.Not(c)) == z3.unsat:
            v = a
        elif s.check(c) == z3.unsat:
            v = b
        else:
            raise I.Unsupported("undetermined condition: " + str(c)[:200])
        tot = 0
        for m, k in x.d.items():
            n = dict(m).get(hit, 0)
            rest = tuple((i, q) for i, q in m if i != hit)
            t = S.mul(k, P({rest: 1})) if rest else k
            if n:
                t = S.mul(t, S.ppow(v, n))
            tot = S.add(tot, t)
        x = tot
        if not isinstance(x, P):
            return x
    raise I.Unsupported("too many conditions")


def clear(d):
    """multiply a polynomial by the denominators occurring in it"""
    inv = {}
    for nb, r in S._INV.items():
        inv[atom_id(r)] = nb
    for _ in range(8):
        if not isinstance(d, P):
            return d
        low = {}
        for m in d.d:
            for i, n in m:
                if n < 0:
                    low[i] = max(low.get(i, 0), -n)
        if low:
            d = S.mul(d, P({tuple(sorted(low.items())): 1}))
            continue
        hit = next((i for m in d.d for i, n in m if i in inv), None)
        if hit is None:
            return d
        K = max(dict(m).get(hit, 0) for m in d.d)
        tot = 0
        for m, c in d.d.items():
            n = dict(m).get(hit, 0)
            rest = tuple((i, q) for i, q in m if i != hit)
            t = S.mul(c, P({rest: 1})) if rest else c
            tot = S.add(tot, S.mul(t, S.ppow(inv[hit], K - n)) if K > n else t)
        d = tot
    return d
