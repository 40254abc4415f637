"""Interpreter of jaxprs (the IR obtained by tracing the real diffrax functions) over symbolic scalars."""
from __future__ import annotations
import itertools as it
import math
import sys
from fractions import Fraction
import numpy as np
import z3
import jax
import jax.numpy as jnp
from jax.extend import core as jcore
from jax._src import source_info_util
from . import scalar as S
from .scalar import P, Ext, Key

Literal = jcore.Literal
TINY = {float(np.finfo(np.float64).tiny), float(np.finfo(np.float32).tiny)}


class Unsupported(Exception):
    pass


class Ctx:
    def __init__(self, eps=None, while_bound=8, prune=None, sqrt_nan=False):
        self.defs = []          # definitional constraints (sqrt, inverses, ...)
        self.errors = []        # (condition, message) of runtime errors raised by the code
        self.unwind = []        # conditions under which a loop would run beyond the bound
        self.path = []
        self.eps = eps
        self.while_bound = while_bound
        self.prune = prune
        self.prune_s = 0.0
        self.sqrt_nan = sqrt_nan
        self.functions = set()
        self.eqns = 0
        self.pows = []          # (x, y, atom)
        self.ufs = {}           # name -> z3 function
        self.uf_apps = []
        self.normals = {}       # (key, idx) -> P
        self._sqrt = {}
        self._opaque = {}
        self.handlers = {}
        if eps is not None:
            self.handlers["call:prevbefore"] = lambda ctx, eqn, x: [ew(lambda v: S.sub(v, ctx.eps), x)]
            self.handlers["call:nextafter"] = lambda ctx, eqn, x: [ew(lambda v: S.add(v, ctx.eps), x)]
        self.n_div0 = len(S.DIV_AXIOMS)
        S._INV.clear()  # inverses (and their axioms) belong to one encoding

    # --- path conditions ------------------------------------------------------
    def pc(self):
        return S.band(*self.path)

    def under(self, cond):
        return _Scope(self, cond)

    def div_axioms(self):
        out = []
        for v, d in S.DIV_AXIOMS[self.n_div0:]:
            e = S.z3e(d)
            out.append(z3.Implies(e != 0, v * S._toreal(e) == 1))
        return out

    def constraints(self):
        return list(self.defs) + self.div_axioms()

    # --- functions ------------------------------------------------------------
    def uf(self, name, *args):
        if any(isinstance(a, Ext) or isinstance(a, float) for a in args):
            # non-finite arguments: only support 1-arg total lifting to nan
            raise Unsupported(f"uf {name} on non-finite value")
        f = self.ufs.get((name, len(args)))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            self.ufs[(name, len(args))] = f
        e = f(*[S._toreal(S.z3e(a)) for a in args])
        r = S.atom(e)
        self.uf_apps.append((name, args, r))
        return r

    def opaque(self, name, *xs):
        """an integer that is some unknown function of xs (syntactically equal arguments give the same one)"""
        k = (name,) + xs
        r = self._opaque.get(k)
        if r is None:
            r = self._opaque[k] = S.integer(S.fresh_name("opaque_" + name))
        return r

    def sqrt(self, x):
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
            if x < 0:
                return math.nan
            f = Fraction(x)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return S.from_float(0) + Fraction(n, d) if d != 1 else n
            return S.from_float(math.sqrt(x))
        if isinstance(x, float):
            return x if x > 0 else math.nan
        if isinstance(x, Ext):
            r = S.ext(self.sqrt(S.ite(S.bor(x.p, x.n, x.a), 0, x.v)))
            return S.mkext(x.p, S.bor(), S.bor(x.n, x.a, r.a), r.v)
        k = x
        r = self._sqrt.get(k)
        if r is not None:
            return r
        s = S.as_single(x)
        if s is not None and all(n % 2 == 0 for _, n in s[1]):
            c = self.sqrt(s[0]) if s[0] >= 0 else None
            if c is not None:
                m = P({tuple((i, n // 2) for i, n in s[1]): 1})
                r = S.mul(c, S.absolute(m))
        if r is None:
            # content: pull out a square factor of all the coefficients is not attempted
            v = z3.Real(S.fresh_name("sqrt"))
            a = S.atom(v)
            e = S._toreal(S.z3e(x))
            self.defs.append(z3.And(v >= 0, z3.Implies(e >= 0, v * v == e)))
            r = a
            if self.sqrt_nan:
                r = S.mkext(False, False, S.lt(x, 0), a)
        self._sqrt[k] = r
        return r


class _Scope:
    def __init__(self, ctx, cond):
        self.ctx, self.cond = ctx, cond

    def __enter__(self):
        self.ctx.path.append(self.cond)
        self.saved = dict(S.FACTS)
        S.add_fact(self.cond)

    def __exit__(self, *a):
        self.ctx.path.pop()
        S.FACTS.clear()
        S.FACTS.update(self.saved)


# --------------------------------------------------------------------------- arrays
def obj(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if fill is not None:
        a.fill(fill)
    return a


def lift(x, ctx=None):
    """numpy/jax concrete array -> object array of scalars"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        data = np.asarray(jax.random.key_data(x))
        out = obj(x.shape)
        for idx in np.ndindex(*x.shape):
            out[idx] = Key(("root", tuple(int(v) for v in data[idx].ravel())))
        return out
    x = np.asarray(x)
    out = obj(x.shape)
    k = x.dtype.kind
    for idx in np.ndindex(*x.shape):
        v = x[idx]
        if k == "b":
            out[idx] = bool(v)
        elif k in "iu":
            out[idx] = int(v)
        elif k == "f" or x.dtype.name == "bfloat16":
            v = float(v)
            if ctx is not None and ctx.eps is not None and abs(v) in TINY:
                out[idx] = ctx.eps if v > 0 else S.neg(ctx.eps)
            else:
                out[idx] = S.from_float(v)
        elif k == "V":  # float0
            out[idx] = False
        else:
            raise Unsupported(f"dtype {x.dtype}")
    return out


def all_concrete(arrs):
    return all(S.concrete(v) for a in arrs for v in a.ravel())


def lower(a, dtype):
    """object array of concrete scalars -> numpy"""
    out = np.empty(a.shape, dtype=dtype)
    for idx in np.ndindex(*a.shape):
        v = a[idx]
        out[idx] = float(v) if np.dtype(dtype).kind == "f" else v
    return out


def ew(f, *arrs):
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = obj(shape)
    for idx in np.ndindex(*shape):
        out[idx] = f(*[a[idx] for a in arrs])
    return out


def merge(c, xs, ys):
    if c is True:
        return xs
    if c is False:
        return ys
    return [ew(lambda a, b: S.ite(c, a, b), x, y) for x, y in zip(xs, ys)]


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def elementwise(name, f):
    RULES[name] = lambda ctx, eqn, *a: [ew(f, *a)]


def _is_bool(a, b):
    return isinstance(a, (bool, z3.BoolRef))


elementwise("add", lambda a, b: S.add(a, b))
elementwise("add_any", lambda a, b: S.add(a, b))
elementwise("sub", lambda a, b: S.sub(a, b))
elementwise("mul", lambda a, b: S.mul(a, b))
elementwise("neg", S.neg)
elementwise("min", lambda a, b: S.band(a, b) if _is_bool(a, b) else S.minimum(a, b))
elementwise("max", lambda a, b: S.bor(a, b) if _is_bool(a, b) else S.maximum(a, b))
elementwise("lt", lambda a, b: S.band(S.bnot(a), b) if _is_bool(a, b) else S.lt(a, b))
elementwise("le", lambda a, b: S.implies(a, b) if _is_bool(a, b) else S.le(a, b))
elementwise("gt", lambda a, b: S.band(S.bnot(b), a) if _is_bool(a, b) else S.gt(a, b))
elementwise("ge", lambda a, b: S.implies(b, a) if _is_bool(a, b) else S.ge(a, b))
elementwise("eq", S.eq)
elementwise("ne", S.ne)
elementwise("lt_to", lambda a, b: S.lt(a, b))
elementwise("le_to", lambda a, b: S.le(a, b))
elementwise("eq_to", lambda a, b: S.eq(a, b))
elementwise("abs", S.absolute)
elementwise("sign", S.sign)
elementwise("is_finite", S.is_finite)
elementwise("square", lambda a: S.mul(a, a))
elementwise("copy", lambda a: a)
elementwise("copy_p", lambda a: a)
elementwise("stop_gradient", lambda a: a)
elementwise("real", lambda a: a)
elementwise("conj", lambda a: a)
elementwise("reduce_precision", lambda a: a)
elementwise("one_minus_square", lambda a: S.sub(1, S.mul(a, a)))


def _bitop(bf, iff):
    def f(a, b):
        if _is_bool(a, b) or isinstance(b, (bool, z3.BoolRef)):
            return bf(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return iff(a, b)
        raise Unsupported("bitwise op on symbolic ints")
    return f


elementwise("and", _bitop(S.band, lambda a, b: a & b))
elementwise("or", _bitop(S.bor, lambda a, b: a | b))
elementwise("xor", _bitop(S.bxor, lambda a, b: a ^ b))


@rule("not")
def _not(ctx, eqn, a):
    def f(x):
        if isinstance(x, (bool, z3.BoolRef)):
            return S.bnot(x)
        return S.sub(-1, x)
    return [ew(f, a)]


def _dt(v):
    return v.aval.dtype


def _isf(dtype):
    return jnp.issubdtype(dtype, jnp.floating)


def _isi(dtype):
    return jnp.issubdtype(dtype, jnp.integer)


def int_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b > 0:
        e = S.z3e(a)
        q = S.atom(e / b)
        qn = S.atom((-e) / b)
        return S.ite(S.lt(a, 0), S.neg(qn), q)
    raise Unsupported("int div")


def int_rem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if isinstance(b, int) and b > 0:
        if b == 1:
            return 0
        # lift through small ites
        if isinstance(a, P):
            at = [(m, c) for m, c in a.d.items() if m]
            if len(at) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1 and at[0][0][0][0] in S._ITE:
                c, x, y = S._ITE[at[0][0][0][0]]
                k = a.d.get((), 0)
                co = at[0][1]
                return S.ite(c, int_rem(S.add(S.mul(x, co), k), b), int_rem(S.add(S.mul(y, co), k), b))
        e = S.z3e(a)
        r = S.atom(e % b)
        rn = S.atom((-e) % b)
        return S.ite(S.lt(a, 0), S.neg(rn), r)
    raise Unsupported("int rem")


@rule("div")
def _div(ctx, eqn, a, b):
    if _isi(_dt(eqn.outvars[0])):
        return [ew(int_div, a, b)]
    return [ew(S.div, a, b)]


@rule("rem")
def _rem(ctx, eqn, a, b):
    if _isi(_dt(eqn.outvars[0])):
        return [ew(int_rem, a, b)]

    def frem(x, y):
        if S.concrete(x) and S.concrete(y):
            return S.from_float(math.fmod(float(x), float(y)))
        raise Unsupported("float rem")
    return [ew(frem, a, b)]


@rule("integer_pow")
def _ipow(ctx, eqn, a):
    y = eqn.params["y"]

    def f(x):
        if S.finite(x):
            if y < 0 and S._num(x) and x == 0:
                return math.inf
            return S.ppow(x, y)
        if y < 0:
            return S.div(1, _mulpow(x, -y))
        return _mulpow(x, y)
    return [ew(f, a)]


def _mulpow(x, n):
    r = x
    for _ in range(n - 1):
        r = S.mul(r, x)
    return r


@rule("pow")
def _pow(ctx, eqn, a, b):
    def f(x, y):
        if isinstance(y, Fraction) and y.denominator == 1:
            y = int(y)
        if isinstance(y, int) and S.finite(x):
            if S._num(x) and x == 0 and y < 0:
                return math.inf
            return S.ppow(x, y)
        if isinstance(y, int) and not S.concrete(x):
            if y == 0:
                return 1
            return _mulpow(x, y) if y > 0 else S.div(1, _mulpow(x, -y))
        if S.concrete(x) and S.concrete(y):
            try:
                return S.from_float(np.power(np.float64(float(x)), np.float64(float(y))))
            except Exception:
                return math.nan
        if y == Fraction(1, 2):
            return ctx.sqrt(x)
        if not S.finite(y):
            raise Unsupported("pow with symbolic non-finite exponent")
        h = ctx.handlers.get("pow")
        if h is not None:
            return h(ctx, x, y)
        if not S.finite(x):
            raise Unsupported("pow on non-finite")
        r = ctx.uf("pow", x, y)
        ctx.pows.append((x, y, r))
        return r
    return [ew(f, a, b)]


@rule("sqrt")
def _sqrt(ctx, eqn, a):
    return [ew(ctx.sqrt, a)]


@rule("rsqrt")
def _rsqrt(ctx, eqn, a):
    return [ew(lambda x: S.div(1, ctx.sqrt(x)), a)]


def _transc(name, fn):
    def r(ctx, eqn, *arrs):
        def f(*xs):
            if all(S.concrete(x) for x in xs):
                with np.errstate(all="ignore"):
                    return S.from_float(fn(*[np.float64(float(x)) for x in xs]))
            h = ctx.handlers.get(name)
            if h is not None:
                return h(ctx, *xs)
            return ctx.uf(name, *xs)
        return [ew(f, *arrs)]
    RULES[name] = r


for _n in ["exp", "exp2", "log", "log2", "expm1", "log1p", "tanh", "sin", "cos", "tan", "cbrt", "sinh", "cosh"]:
    _transc(_n, getattr(np, _n))
_transc("asin", np.arcsin)
_transc("acos", np.arccos)
_transc("atan", np.arctan)
_transc("atan2", np.arctan2)
_transc("logistic", lambda x: 1 / (1 + np.exp(-x)))


@rule("floor", "ceil", "round")
def _floor(ctx, eqn, a):
    n = eqn.primitive.name

    def f(x):
        if isinstance(x, (int, float)):
            return x
        if isinstance(x, Fraction):
            return math.floor(x) if n == "floor" else math.ceil(x) if n == "ceil" else round(x)
        if isinstance(x, Ext):
            return S.mkext(x.p, x.n, x.a, f(x.v))
        e = S._toreal(S.z3e(x))
        if n == "floor":
            return S.atom(z3.ToInt(e))
        if n == "ceil":
            return S.neg(S.atom(z3.ToInt(-e)))
        raise Unsupported("round")
    return [ew(f, a)]


@rule("nextafter")
def _nextafter(ctx, eqn, a, b):
    def f(x, y):
        if ctx.eps is None:
            if S.concrete(x) and S.concrete(y):
                return S.from_float(np.nextafter(float(x), float(y)))
            raise Unsupported("nextafter without eps")
        if y == math.inf:
            return S.add(x, ctx.eps)
        if y == -math.inf:
            return S.sub(x, ctx.eps)
        d = S.ite(S.lt(x, y), ctx.eps, S.ite(S.lt(y, x), S.neg(ctx.eps), 0))
        return S.add(x, d)
    return [ew(f, a, b)]


@rule("convert_element_type")
def _convert(ctx, eqn, a):
    src, dst = _dt(eqn.invars[0]), eqn.params["new_dtype"]

    def f(x):
        if isinstance(x, Key):
            return x
        isb = isinstance(x, (bool, z3.BoolRef))
        if dst == jnp.bool_:
            return x if isb else S.ne(x, 0)
        if isb:
            return S.ite(x, 1, 0)
        if _isi(dst) and _isf(src):
            if isinstance(x, float):  # implementation defined
                return S.integer(S.fresh_name("cast"))
            if isinstance(x, (int, Fraction)):
                return int(x)
            if isinstance(x, Ext):
                return S.ite(S.bor(x.p, x.n, x.a), S.integer(S.fresh_name("cast")), f(x.v))
            if S._isint(x):
                return x
            e = S._toreal(S.z3e(x))
            return S.ite(S.lt(x, 0), S.neg(S.atom(z3.ToInt(-e))), S.atom(z3.ToInt(e)))
        return x
    return [ew(f, a)]


@rule("select_n")
def _select_n(ctx, eqn, which, *cases):
    if which.shape == ():
        w = which[()]
        if isinstance(w, (bool, z3.BoolRef)):
            return [merge(w, [cases[1]], [cases[0]])[0]]

    def f(w, *xs):
        if isinstance(w, (bool, z3.BoolRef)):
            return S.ite(w, xs[1], xs[0])
        if isinstance(w, int):
            return xs[min(max(w, 0), len(xs) - 1)]
        r = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            r = S.ite(S.le(w, i), xs[i], r)
        return r
    return [ew(f, which, *cases)]


@rule("clamp")
def _clamp(ctx, eqn, lo, x, hi):
    return [ew(lambda l, v, h: S.minimum(S.maximum(v, l), h), lo, x, hi)]


@rule("polynomial")
def _polynomial(ctx, eqn, x, *cs):
    def f(xv, *c):
        acc = c[-1]
        for k in reversed(c[:-1]):
            acc = S.add(S.mul(acc, xv), k)
        return acc
    return [ew(f, x, *cs)]


# --- structural ops via index tracing -----------------------------------------
def _bind(eqn, *args):
    out = eqn.primitive.bind(*args, **eqn.params)
    return out if eqn.primitive.multiple_results else [out]


@rule("broadcast_in_dim", "reshape", "squeeze", "transpose", "rev", "slice", "expand_dims", "split", "unstack", "tile")
def _structural(ctx, eqn, a, *rest):
    idx = np.arange(a.size, dtype=np.int64).reshape(a.shape)
    outs = _bind(eqn, jnp.asarray(idx))
    flat = a.reshape(-1)
    res = []
    for o in outs:
        o = np.asarray(o)
        r = obj(o.shape)
        for i in np.ndindex(*o.shape):
            r[i] = flat[int(o[i])]
        res.append(r)
    return res


@rule("concatenate", "stack", "pad")
def _concat(ctx, eqn, *arrs):
    off = 0
    idxs, flat = [], []
    for a in arrs:
        idxs.append(jnp.asarray(np.arange(off, off + a.size, dtype=np.int64).reshape(a.shape)))
        off += a.size
        flat.extend(a.reshape(-1))
    o = np.asarray(_bind(eqn, *idxs)[0])
    r = obj(o.shape)
    for i in np.ndindex(*o.shape):
        r[i] = flat[int(o[i])]
    return [r]


@rule("iota", "empty", "empty2")
def _iota(ctx, eqn, *a):
    return [lift(np.asarray(o), ctx) for o in _bind(eqn)]


def _sym_index_cases(indices, ranges):
    """enumerate assignments of symbolic integer index scalars; yields (guard, concrete indices)."""
    syms = [(j, v) for j, v in enumerate(indices) if not isinstance(v, int)]
    if not syms:
        yield True, list(indices)
        return
    for combo in it.product(*[range(*ranges[j]) for j, _ in syms]):
        guard = True
        conc = list(indices)
        for (j, v), k in zip(syms, combo):
            lo, hi = ranges[j]
            # saturate at both ends
            if k == lo and k == hi - 1:
                g = True
            elif k == lo:
                g = S.le(v, k)
            elif k == hi - 1:
                g = S.ge(v, k)
            else:
                g = S.eq(v, k)
            guard = S.band(guard, g)
            conc[j] = k
        if guard is False:
            continue
        yield guard, conc


def _merge_cases(cases):
    res = None
    cases = list(cases)
    for g, o in reversed(cases):
        res = o if res is None else ew(lambda a, b: S.ite(g, a, b), o, res)
    return res


def _as_int(v):
    return v


@rule("dynamic_slice")
def _dynamic_slice(ctx, eqn, a, *idx):
    idx = [i[()] for i in idx]
    sizes = eqn.params["slice_sizes"]
    cases = []
    for g, conc in _sym_index_cases(idx, [(0, d - s + 1) for d, s in zip(a.shape, sizes)]):
        sl = tuple(
            slice(min(max(c, 0), d - s), min(max(c, 0), d - s) + s)
            for c, d, s in zip(conc, a.shape, sizes)
        )
        cases.append((g, a[sl]))
    return [_merge_cases(cases)]


@rule("dynamic_update_slice")
def _dus(ctx, eqn, a, upd, *idx):
    idx = [i[()] for i in idx]
    cases = []
    for g, conc in _sym_index_cases(idx, [(0, d - s + 1) for d, s in zip(a.shape, upd.shape)]):
        sl = tuple(
            slice(min(max(c, 0), d - s), min(max(c, 0), d - s) + s)
            for c, d, s in zip(conc, a.shape, upd.shape)
        )
        b = a.copy()
        b[sl] = upd
        cases.append((g, b))
    return [_merge_cases(cases)]


@rule("gather")
def _gather(ctx, eqn, a, ind):
    dn = eqn.params["dimension_numbers"]
    sizes = eqn.params["slice_sizes"]
    shape = ind.shape
    flat = list(ind.reshape(-1))
    ncol = shape[-1] if len(shape) else 1
    # out-of-bounds probes: -1 and dim
    ranges = []
    for j in range(len(flat)):
        d = dn.start_index_map[j % ncol]
        n = a.shape[d] - sizes[d]
        ranges.append((-1, n + 2))
    import dataclasses
    params = dict(eqn.params)
    idxarr = jnp.asarray(np.arange(a.size, dtype=np.int64).reshape(a.shape))
    params["fill_value"] = -1
    flata = a.reshape(-1)
    fv = eqn.params.get("fill_value")
    outdt = _dt(eqn.outvars[0])
    if fv is None:
        fv = math.nan if _isf(outdt) else (False if outdt == jnp.bool_ else 0)

    def run(conc):
        o = np.asarray(
            eqn.primitive.bind(idxarr, jnp.asarray(np.array(conc, dtype=np.int64).reshape(shape)), **params)
        )
        r = obj(o.shape)
        for i in np.ndindex(*o.shape):
            k = int(o[i])
            r[i] = flata[k] if k >= 0 else fv
        return r

    nsym = sum(not isinstance(v, int) for v in flat)
    if nsym <= 1 or len(flat) == ncol:
        return [_merge_cases([(g, run(c)) for g, c in _sym_index_cases(flat, ranges)])]
    # many independent index rows: process each row separately
    rows = ind.reshape(-1, ncol)
    base = [[0 if not isinstance(v, int) else v for v in r] for r in rows]
    out0 = run([v for r in base for v in r])
    # find, per row, which outputs depend on it: outputs' batch dims are those not in offset_dims
    offset = dn.offset_dims
    bdims = [d for d in range(out0.ndim) if d not in offset]
    bshape = shape[:-1]
    res = obj(out0.shape)
    for ri, bidx in enumerate(np.ndindex(*bshape)):
        sel = [slice(None)] * out0.ndim
        for d, b in zip(bdims, bidx):
            sel[d] = b
        sel = tuple(sel)
        cases = []
        for g, c in _sym_index_cases(list(rows[ri]), ranges[ri * ncol : ri * ncol + ncol]):
            full = [list(r) for r in base]
            full[ri] = c
            o = run([v for r in full for v in r])[sel]
            cases.append((g, np.array(o, dtype=object) if not isinstance(o, np.ndarray) else o))
        m = _merge_cases(cases)
        res[sel] = m if m.shape else m[()]
    return [res]


@rule("scatter", "scatter_add", "scatter-add", "scatter_mul", "scatter_min", "scatter_max")
def _scatter(ctx, eqn, a, ind, upd):
    dn = eqn.params["dimension_numbers"]
    shape = ind.shape
    flat = list(ind.reshape(-1))
    ncol = shape[-1]
    ranges = []
    for j in range(len(flat)):
        d = dn.scatter_dims_to_operand_dims[j % ncol]
        ranges.append((-1, a.shape[d] + 1))
    name = eqn.primitive.name
    from jax import lax
    params = dict(eqn.params)
    # determine placement by scattering update ids (+1) into zeros, one update at a time
    base = jnp.zeros(a.shape, jnp.int64)

    def run(conc):
        b = a.copy()
        inda = jnp.asarray(np.array(conc, dtype=np.int64).reshape(shape))
        for ui in np.ndindex(*upd.shape):
            m = np.zeros(upd.shape, np.int64)
            m[ui] = 1
            placed = np.asarray(
                jax.lax.scatter_add(base, inda, jnp.asarray(m), dn, mode=eqn.params.get("mode"))
            )
            for pos in np.argwhere(placed):
                pos = tuple(pos)
                if name == "scatter":
                    b[pos] = upd[ui]
                elif name in ("scatter_add", "scatter-add"):
                    b[pos] = S.add(b[pos], upd[ui])
                elif name == "scatter_mul":
                    b[pos] = S.mul(b[pos], upd[ui])
                elif name == "scatter_min":
                    b[pos] = S.minimum(b[pos], upd[ui])
                else:
                    b[pos] = S.maximum(b[pos], upd[ui])
        return b

    nsym = sum(not isinstance(v, int) for v in flat)
    if nsym > 3:
        raise Unsupported("scatter with many symbolic indices")
    return [_merge_cases([(g, run(c)) for g, c in _sym_index_cases(flat, ranges)])]


# --- reductions ----------------------------------------------------------------
def _reduce(f, init):
    def r(ctx, eqn, a):
        axes = eqn.params["axes"]
        keep = [d for d in range(a.ndim) if d not in axes]
        out = obj(tuple(a.shape[d] for d in keep))
        b = np.transpose(a, keep + list(axes)).reshape(out.shape + (-1,))
        for i in np.ndindex(*out.shape):
            acc = None
            for v in b[i]:
                acc = v if acc is None else f(acc, v)
            out[i] = init if acc is None else acc
        return [out]
    return r


RULES["reduce_sum"] = _reduce(S.add, 0)
RULES["reduce_max"] = _reduce(lambda a, b: S.bor(a, b) if _is_bool(a, b) else S.maximum(a, b), -math.inf)
RULES["reduce_min"] = _reduce(lambda a, b: S.band(a, b) if _is_bool(a, b) else S.minimum(a, b), math.inf)
RULES["reduce_prod"] = _reduce(S.mul, 1)
RULES["reduce_and"] = _reduce(S.band, True)
RULES["reduce_or"] = _reduce(S.bor, False)


def _cum(f):
    def r(ctx, eqn, a):
        ax = eqn.params["axis"]
        rev = eqn.params.get("reverse", False)
        b = np.moveaxis(a, ax, 0).copy()
        n = b.shape[0]
        order = range(n - 2, -1, -1) if rev else range(1, n)
        for i in order:
            j = i + 1 if rev else i - 1
            b[i] = ew(f, b[j], b[i]) if b[i].__class__ is np.ndarray else f(b[j], b[i])
        return [np.moveaxis(b, 0, ax)]
    return r


RULES["cumsum"] = _cum(S.add)
RULES["cumprod"] = _cum(S.mul)
RULES["cummax"] = _cum(S.maximum)
RULES["cummin"] = _cum(S.minimum)


@rule("argmax", "argmin")
def _argmax(ctx, eqn, a):
    (ax,) = eqn.params["axes"]
    b = np.moveaxis(a, ax, -1)
    out = obj(b.shape[:-1])
    mx = eqn.primitive.name == "argmax"
    for i in np.ndindex(*out.shape):
        best, bi = b[i][0], 0
        for k in range(1, b.shape[-1]):
            v = b[i][k]
            if isinstance(v, (bool, z3.BoolRef)):
                better = S.band(v, S.bnot(best)) if mx else S.band(best, S.bnot(v))
            else:
                better = S.lt(best, v) if mx else S.lt(v, best)
            best = S.ite(better, v, best)
            bi = S.ite(better, k, bi)
        out[i] = bi
    return [out]


@rule("sort")
def _sort(ctx, eqn, *ops):
    ax = eqn.params["dimension"]
    nk = eqn.params["num_keys"]
    ops = [np.moveaxis(o, ax, -1).copy() for o in ops]
    n = ops[0].shape[-1]
    for i in np.ndindex(*ops[0].shape[:-1]):
        rows = [o[i] for o in ops]
        for a in range(n):
            for b in range(n - 1 - a):
                # lexicographic compare of keys: swap if row[b+1] < row[b]
                sw = False
                eqs = True
                for k in range(nk):
                    sw = S.bor(sw, S.band(eqs, S.lt(rows[k][b + 1], rows[k][b])))
                    eqs = S.band(eqs, S.eq(rows[k][b + 1], rows[k][b]))
                for r in rows:
                    x, y = r[b], r[b + 1]
                    r[b], r[b + 1] = S.ite(sw, y, x), S.ite(sw, x, y)
        for o, r in zip(ops, rows):
            o[i] = r
    return [np.moveaxis(o, -1, ax) for o in ops]


@rule("dot_general")
def _dot(ctx, eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    bs = tuple(a.shape[d] for d in ba)
    fas = tuple(a.shape[d] for d in fa)
    fbs = tuple(b.shape[d] for d in fb)
    out = obj(bs + fas + fbs)
    for bi in np.ndindex(*bs):
        for i in np.ndindex(*fas):
            for j in np.ndindex(*fbs):
                acc = 0
                x = A[bi + i].reshape(-1) if isinstance(A[bi + i], np.ndarray) else [A[bi + i]]
                y = B[bi + j].reshape(-1) if isinstance(B[bi + j], np.ndarray) else [B[bi + j]]
                for u, v in zip(x, y):
                    if (isinstance(u, int) and u == 0 and S.finite(v)) or (isinstance(v, int) and v == 0 and S.finite(u)):
                        continue
                    acc = S.add(acc, S.mul(u, v))
                out[bi + i + j] = acc
    return [out]


# --- higher order ---------------------------------------------------------------
def _closed(j):
    if isinstance(j, jcore.ClosedJaxpr):
        return j.jaxpr, [j.consts[i] for i in range(len(j.consts))]
    return j, []


def call_closed(ctx, j, args):
    jx, consts = _closed(j)
    return eval_jaxpr(ctx, jx, [lift(c, ctx) for c in consts], args)


@rule("jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr",
      "remat", "checkpoint", "remat2", "core_closed_call", "custom_lin", "xla_call")
def _call(ctx, eqn, *args):
    name = eqn.params.get("name", "")
    h = ctx.handlers.get("call:" + str(name))
    if h is not None:
        r = h(ctx, eqn, *args)
        if r is not None:
            return r
    for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
        if k in eqn.params:
            return call_closed(ctx, eqn.params[k], list(args))
    raise Unsupported(f"call {eqn.primitive.name} {list(eqn.params)}")


@rule("cond")
def _cond(ctx, eqn, idx, *args):
    branches = eqn.params["branches"]
    i = idx[()]
    n = len(branches)
    if isinstance(i, (bool, z3.BoolRef)):
        i = S.ite(i, 1, 0)
    if isinstance(i, int):
        return call_closed(ctx, branches[min(max(i, 0), n - 1)], list(args))
    res = None
    for k in range(n - 1, -1, -1):
        if n == 1:
            g = True
        elif k == 0:
            g = S.le(i, 0)
        elif k == n - 1:
            g = S.ge(i, n - 1)
        else:
            g = S.eq(i, k)
        g = ctx_known(ctx, g)
        if g is False:
            continue
        if g is True:
            return call_closed(ctx, branches[k], list(args))
        with ctx.under(g):
            o = call_closed(ctx, branches[k], list(args))
        res = o if res is None else merge(g, o, res)
    return res


def ctx_known(ctx, g):
    """fold g using facts and (optionally) the solver under assumptions + path."""
    if isinstance(g, bool):
        return g
    g = S.fold_fact(g)
    if isinstance(g, bool) or ctx.prune is None:
        return g
    return ctx.prune(ctx, g)


@rule("while")
def _while(ctx, eqn, *args):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = list(args[:cn]), list(args[cn : cn + bn]), list(args[cn + bn :])
    exits = []  # (exit condition, state)
    alive = []
    scopes = []
    bound = ctx.while_bound
    k = 0
    try:
        while True:
            c = call_closed(ctx, p["cond_jaxpr"], cc + st)[0]
            if c.shape != ():
                raise Unsupported("batched while cond")
            c = ctx_known(ctx, c[()])
            if c is False:
                exits.append((True, st))
                break
            if k >= bound and c is not True or k > 10000:
                # unwinding assertion
                ctx.unwind.append(S.band(ctx.pc(), c))
                exits.append((True, st))
                break
            if c is not True:
                exits.append((S.bnot(c), st))
                sc = ctx.under(c)
                sc.__enter__()
                scopes.append(sc)
            st = call_closed(ctx, p["body_jaxpr"], bc + st)
            k += 1
    finally:
        for sc in reversed(scopes):
            sc.__exit__()
    res = exits[-1][1]
    for g, s in reversed(exits[:-1]):
        res = merge(g, s, res)
    return res


@rule("scan")
def _scan(ctx, eqn, *args):
    p = eqn.params
    if "num_consts" in p:
        nc, nk = p["num_consts"], p["num_carry"]
    else:
        a, b, _ = (len(list(x)) for x in p["ft_in"].update(list(range(len(args)))).unpack())
        nc, nk = a, b
    consts, carry, xs = list(args[:nc]), list(args[nc : nc + nk]), list(args[nc + nk :])
    n = p["length"]
    order = range(n - 1, -1, -1) if p["reverse"] else range(n)
    ys = [None] * n
    for i in order:
        o = call_closed(ctx, p["jaxpr"], consts + carry + [_idx(x, i) for x in xs])
        carry = o[:nk]
        ys[i] = o[nk:]
    outs = []
    ny = len(eqn.outvars) - nk
    for j in range(ny):
        av = eqn.outvars[nk + j].aval
        r = obj(av.shape)
        for i in range(n):
            if r.ndim == 1:
                r[i] = ys[i][j][()]
            else:
                r[i] = ys[i][j]
        outs.append(r)
    return carry + outs


def _idx(x, i):
    v = x[i]
    if isinstance(v, np.ndarray):
        return v
    a = obj(())
    a[()] = v
    return a


@rule("call_hi_primitive")
def _hi(ctx, eqn, *args):
    prim = eqn.params["_prim"]
    nm = type(prim).__name__
    if nm == "SearchSorted" and args[0].ndim == 1:
        arr, q = args
        lt = S.lt if prim.params["side"] == "left" else S.le

        def f(x):
            r = 0
            for a in arr:
                r = S.add(r, S.ite(lt(a, x), 1, 0))
            return r
        return [ew(f, q)]
    if nm == "CustomJVPTraced" or nm == "CustomVJPTraced":
        tr = getattr(prim, "traced", None)
        if tr is not None:
            return call_closed(ctx, tr.jaxpr, list(args))
    tree = getattr(prim, "in_tree", None)

    def f(*a):
        if tree is not None:
            a = jax.tree_util.tree_unflatten(tree, a)
        return jax.tree_util.tree_leaves(prim.expand(*a))
    jx = jax.make_jaxpr(f)(*[v.aval for v in eqn.invars])
    return call_closed(ctx, jx, list(args))


# --- errors / callbacks -----------------------------------------------------------
@rule("pure_callback", "io_callback")
def _callback(ctx, eqn, *args):
    cb = str(eqn.params.get("callback"))
    if "raises" in cb:
        ctx.errors.append((ctx.pc(), "error_if"))
    h = ctx.handlers.get("callback")
    if h is not None:
        r = h(ctx, eqn, *args)
        if r is not None:
            return r
    outs = []
    for v in eqn.outvars:
        r = obj(v.aval.shape)
        for i in np.ndindex(*r.shape):
            dt = v.aval.dtype
            nm = S.fresh_name("cb")
            r[i] = z3.Bool(nm) if dt == jnp.bool_ else (S.integer(nm) if _isi(dt) else S.real(nm))
        outs.append(r)
    return outs


@rule("debug_callback")
def _dbg(ctx, eqn, *args):
    return []


# --- equinox ----------------------------------------------------------------------
@rule("unvmap_any")
def _uany(ctx, eqn, a):
    r = obj(())
    r[()] = S.bor(*a.reshape(-1))
    return [r]


@rule("unvmap_all")
def _uall(ctx, eqn, a):
    r = obj(())
    r[()] = S.band(*a.reshape(-1))
    return [r]


@rule("unvmap_max")
def _umax(ctx, eqn, a):
    r = obj(())
    acc = None
    for v in a.reshape(-1):
        acc = v if acc is None else S.maximum(acc, v)
    r[()] = acc
    return [r]


@rule("select_if_vmap")
def _sel_if_vmap(ctx, eqn, pred, x, y):
    # unbatched: returns x
    return [x]


@rule("nonbatchable", "nontraceable", "nondifferentiable_backward", "optimization_barrier", "dce_sink", "tie")
def _ident(ctx, eqn, *a):
    return list(a[: len(eqn.outvars)])


# --- PRNG ---------------------------------------------------------------------------
def _unpart(els):
    """elements of a raw key -> Key"""
    if all(isinstance(e, int) for e in els):
        return Key(("root", tuple(els)))
    if all(isinstance(e, Key) and e.k[0] == "part" for e in els):
        base = els[0].k[1]
        if all(e.k[1] == base and e.k[2] == j for j, e in enumerate(els)):
            return base
    if all(isinstance(e, Key) and e.k[0] == "ite" for e in els):
        c = els[0].k[1]
        if all(e.k[1] == c for e in els):
            return Key(("ite", c, _unpart([e.k[2] for e in els]), _unpart([e.k[3] for e in els])))
    raise Unsupported("raw key manipulation")


@rule("random_wrap")
def _rwrap(ctx, eqn, a):
    out = obj(a.shape[:-1])
    for i in np.ndindex(*out.shape):
        out[i] = _unpart(list(a[i]))
    return [out]


@rule("random_unwrap")
def _runwrap(ctx, eqn, a):
    n = eqn.outvars[0].aval.shape[-1]
    out = obj(a.shape + (n,))
    for i in np.ndindex(*a.shape):
        for j in range(n):
            out[i + (j,)] = _part(a[i], j)
    return [out]


def _part(k, j):
    if k.k[0] == "ite":
        return Key(("ite", k.k[1], _part(k.k[2], j), _part(k.k[3], j)))
    return Key(("part", k, j))


def key_map(k, f):
    if k.k[0] == "ite":
        return S.ite(k.k[1].e, key_map(k.k[2], f), key_map(k.k[3], f))
    return f(k)


@rule("random_split")
def _rsplit(ctx, eqn, a):
    shape = tuple(eqn.params["shape"])
    out = obj(a.shape + shape)
    for i in np.ndindex(*a.shape):
        for j in np.ndindex(*shape):
            out[i + j] = key_map(a[i], lambda k: Key(("split", k, shape, j)))
    return [out]


@rule("random_fold_in")
def _rfold(ctx, eqn, a, d):
    def f(k, x):
        if not isinstance(x, int):
            x = ctx.opaque("fold", x)
        return key_map(k, lambda kk: Key(("fold", kk, x)))
    return [ew(f, a, d)]


@rule("bitcast_convert_type")
def _bitcast(ctx, eqn, a):
    """the bit pattern of a symbolic float: an opaque integer (equal floats have equal patterns)"""
    if all_concrete([a]):
        x = jnp.asarray(lower(a, eqn.invars[0].aval.dtype))
        return [lift(np.asarray(jax.lax.bitcast_convert_type(x, eqn.params["new_dtype"])))]
    shape = eqn.outvars[0].aval.shape
    out = obj(shape)
    for i in np.ndindex(*shape):
        out[i] = ctx.opaque("bits" + "_".join(map(str, i[a.ndim:])), a[i[: a.ndim]])
    return [out]


@rule("reduce_xor")
def _rxor(ctx, eqn, a):
    axes = eqn.params["axes"]
    rest = [k for k in range(a.ndim) if k not in axes]
    b = np.transpose(a, rest + list(axes)).reshape(tuple(a.shape[k] for k in rest) + (-1,))
    out = obj(b.shape[:-1])
    for i in np.ndindex(*out.shape):
        if all(isinstance(x, bool) for x in b[i]):
            out[i] = bool(sum(b[i]) % 2)
        elif all(isinstance(x, int) for x in b[i]):
            v = 0
            for x in b[i]:
                v ^= x
            out[i] = v
        else:
            out[i] = ctx.opaque("xor", *b[i])
    return [out]


@rule("random_clone")
def _rclone(ctx, eqn, a):
    return [a]


def key_name(k):
    if k.k[0] == "root":
        return "r" + "_".join(map(str, k.k[1]))
    if k.k[0] == "split":
        return key_name(k.k[1]) + "s" + "x".join(map(str, k.k[2])) + "i" + "_".join(map(str, k.k[3]))
    if k.k[0] == "fold":
        return key_name(k.k[1]) + "f" + str(k.k[2] if isinstance(k.k[2], int) else S.z3e(k.k[2]))
    raise Unsupported("key name")


def draw_handler(kind):
    def h(ctx, eqn, *args):
        keys = [a for a in args if a.size and isinstance(a.reshape(-1)[0], Key)]
        if not keys:
            return None
        ka = keys[0]
        av = eqn.outvars[0].aval
        lead = ka.shape
        if ka.size and any(k.k[0] in ("part",) for k in ka.reshape(-1)):
            o2 = obj(ka.shape[:-1])
            for i in np.ndindex(*o2.shape):
                o2[i] = _unpart(list(ka[i]))
            ka, lead = o2, o2.shape
        out = obj(av.shape)
        for i in np.ndindex(*av.shape):
            k = ka[i[: len(lead)]]
            tail = i[len(lead):]

            def f(kk):
                nm = f"{kind}[{key_name(kk)}]{tail}"
                v = S.real(nm) if kind not in ("bernoulli",) else z3.Bool(nm)
                ctx.normals[nm] = v
                return v
            out[i] = key_map(k, f)
        return [out]
    return h


# --- evaluation ------------------------------------------------------------------------
def _record(ctx, eqn):
    try:
        tb = eqn.source_info.traceback
        if tb is None:
            return
        key = id(tb)
        for fr in source_info_util.user_frames(eqn.source_info.traceback):
            fn = fr.file_name
            if "/diffrax/" in fn and "/repo" in fn:
                ctx.functions.add(fn.split("/repo/")[1] + ":" + fr.function_name)
    except Exception:
        pass


def eval_jaxpr(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, Literal):
            return lift(np.asarray(v.val), ctx)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        ctx.eqns += 1
        _record(ctx, eqn)
        name = eqn.primitive.name
        h = ctx.handlers.get("prim:" + name)
        outs = None
        if h is not None:
            outs = h(ctx, eqn, *ins)
        if outs is None:
            outs = apply_rule(ctx, eqn, ins)
        if len(outs) != len(eqn.outvars):
            raise Unsupported(f"{name}: {len(outs)} outputs, expected {len(eqn.outvars)}")
        for v, o in zip(eqn.outvars, outs):
            if type(v).__name__ == "DropVar":
                continue
            if o.shape != tuple(v.aval.shape):
                raise Unsupported(f"{name}: shape {o.shape} vs {v.aval.shape}")
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


_EXPAND: dict = {}


def apply_rule(ctx, eqn, ins):
    name = eqn.primitive.name
    r = RULES.get(name)
    if r is not None:
        return r(ctx, eqn, *ins)
    # equinox "vprim" primitives and similar: expand the registered implementation
    try:
        from equinox.internal._primitive import _vprim_impl_registry
        if eqn.primitive in _vprim_impl_registry or name == "vprim":
            jx = jax.make_jaxpr(lambda *a: eqn.primitive.impl(*a, **eqn.params))(*[v.aval for v in eqn.invars])
            return call_closed(ctx, jx, ins)
    except ImportError:
        pass
    if all_concrete(ins) and not any(isinstance(x, float) and False for a in ins for x in a.ravel()):
        arrs = [jnp.asarray(lower(a, v.aval.dtype)) for a, v in zip(ins, eqn.invars)]
        out = eqn.primitive.bind(*arrs, **eqn.params)
        out = out if eqn.primitive.multiple_results else [out]
        return [lift(o, ctx) for o in out]
    # generic expansion through the python implementation
    impl = getattr(eqn.primitive, "impl", None)
    if impl is not None:
        try:
            jx = jax.make_jaxpr(lambda *a: impl(*a, **eqn.params))(*[v.aval for v in eqn.invars])
        except Exception as e:
            raise Unsupported(f"primitive {name}: {e}")
        if not any(e.primitive is eqn.primitive for e in jx.jaxpr.eqns):
            return call_closed(ctx, jx, ins)
    raise Unsupported(f"primitive {name}")
