"""Symbolic scalar domain used by the jaxpr interpreter.

A scalar is one of
  * bool / z3 BoolRef                       (dtype bool)
  * int / Fraction                          (concrete finite number)
  * float inf/-inf/nan                      (concrete non-finite number)
  * P                                       (Laurent polynomial over z3 atoms, exact rational coefficients)
  * Ext                                     (possibly non-finite symbolic number)
  * Key                                     (opaque PRNG key)
All folding below is exact rational arithmetic.
"""
from __future__ import annotations
import math
from fractions import Fraction
import z3

# --------------------------------------------------------------------------- atoms
_ATOMS: dict[int, z3.ExprRef] = {}  # z3 ast id -> expr (keeps it alive)
_ITE: dict[int, tuple] = {}         # atom id -> (cond, a, b)
_FRESH = [0]


def reset():
    _Z3CACHE.clear()


def fresh_name(prefix="v"):
    _FRESH[0] += 1
    return f"{prefix}!{_FRESH[0]}"


class P:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def __eq__(self, other):  # structural
        return isinstance(other, P) and self.d == other.d

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"P({z3e(self)})"


def atom(expr: z3.ExprRef) -> P:
    i = expr.get_id()
    _ATOMS[i] = expr
    return P({((i, 1),): 1})


def real(name):
    return atom(z3.Real(name))


def integer(name):
    return atom(z3.Int(name))


def boolean(name):
    return z3.Bool(name)


def _norm(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return P(d)


def _num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def is_nonfinite(x):
    return isinstance(x, float)


def dict_of(x):
    if isinstance(x, P):
        return x.d
    return {(): x} if x != 0 else {}


_MONO_CACHE: dict = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MONO_CACHE.get(k)
    if r is None:
        e = dict(a)
        for i, n in b:
            e[i] = e.get(i, 0) + n
        r = tuple(sorted((i, n) for i, n in e.items() if n != 0))
        if len(_MONO_CACHE) > 2000000:
            _MONO_CACHE.clear()
        _MONO_CACHE[k] = r
    return r


def padd(a, b):
    if _num(a) and _num(b):
        return a + b
    d = dict(dict_of(a))
    for k, v in dict_of(b).items():
        s = d.get(k, 0) + v
        if s == 0:
            d.pop(k, None)
        else:
            d[k] = s
    return _norm(d)


def pneg(a):
    if _num(a):
        return -a
    return P({k: -v for k, v in a.d.items()})


MAX_TERMS = 200000
# When set, multiplying two multi-term polynomials yields an opaque z3 product atom above this size.
OPAQUE_MUL = [None]


def pmul(a, b):
    if _num(a) and _num(b):
        return a * b
    if _num(a):
        if a == 0:
            return 0
        if a == 1:
            return b
        return P({k: v * a for k, v in b.d.items()})
    if _num(b):
        return pmul(b, a)
    da, db = a.d, b.d
    if OPAQUE_MUL[0] is not None and len(da) * len(db) > OPAQUE_MUL[0]:
        return atom(z3e(a) * z3e(b))
    if len(da) > len(db):
        da, db = db, da
    out = {}
    for ka, va in da.items():
        for kb, vb in db.items():
            k = mono_mul(ka, kb)
            s = out.get(k, 0) + va * vb
            out[k] = s
    if len(out) > MAX_TERMS:
        raise MemoryError("polynomial too large")
    return _norm(out)


def as_single(a):
    """If a == c * mono (single monomial) return (c, mono)."""
    if isinstance(a, P) and len(a.d) == 1:
        (k, v), = a.d.items()
        return v, k
    return None


_INV: dict = {}
DIV_AXIOMS: list = []  # (inv_atom, denominator P)


def pinv(b):
    if _num(b):
        return Fraction(1) / b
    s = as_single(b)
    if s is not None:
        c, mono = s
        return P({tuple((i, -n) for i, n in mono): Fraction(1) / c})
    # compound denominator: scale-normalise then one shared inverse atom
    c = b.d[min(b.d)]
    nb = P({k: Fraction(v) / c for k, v in b.d.items()})
    r = _INV.get(nb)
    if r is None:
        v = z3.Real(fresh_name("inv"))
        r = atom(v)
        _INV[nb] = r
        DIV_AXIOMS.append((v, nb))
    return pmul(r, Fraction(1) / c)


def pdiv(a, b):
    if _num(a) and _num(b):
        return Fraction(a) / b
    if isinstance(a, P) and isinstance(b, P) and a.d == b.d:
        return 1
    return pmul(a, pinv(b))


def ppow(a, n: int):
    if n == 0:
        return 1
    if n < 0:
        return ppow(pinv(a), -n)
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


# --------------------------------------------------------------------------- z3 conversion
_Z3CACHE: dict = {}


def rv(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


def z3e(x, sort=None):
    """Scalar -> z3 expr (Real unless all-int)."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, int):
        return z3.IntVal(x) if sort == "int" else z3.RealVal(x)
    if isinstance(x, Fraction):
        return rv(x)
    if isinstance(x, P):
        k = (x.key(), sort)
        r = _Z3CACHE.get(k)
        if r is not None:
            return r
        allint = all(
            isinstance(v, int) or v.denominator == 1 for v in x.d.values()
        ) and all(
            n > 0 and _ATOMS[i].is_int() for m in x.d for i, n in m
        )
        terms = []
        for m, c in sorted(x.d.items(), key=lambda kv: kv[0]):
            num = None
            den = None
            for i, n in m:
                e = _ATOMS[i]
                if not allint and e.is_int():
                    e = z3.ToReal(e)
                for _ in range(abs(n)):
                    if n > 0:
                        num = e if num is None else num * e
                    else:
                        den = e if den is None else den * e
            if allint:
                cv = z3.IntVal(int(c))
            else:
                cv = rv(c)
            t = cv if num is None else (num if c == 1 else cv * num)
            if den is not None:
                t = t / den
            terms.append(t)
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        _Z3CACHE[k] = r
        return r
    raise TypeError(f"cannot convert {type(x)} {x!r} to z3")


# --------------------------------------------------------------------------- booleans
def band(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return False
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return True
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if a.get_id() == b.get_id():
        return a
    return z3.If(c, a, b)


def bxor(a, b):
    if isinstance(a, bool):
        return bnot(b) if a else b
    if isinstance(b, bool):
        return bnot(a) if b else a
    return z3.Xor(a, b)


def implies(a, b):
    return bor(bnot(a), b)


# facts known to hold (syntactic literals), used for folding
FACTS: dict[int, tuple] = {}


def add_fact(lit):
    if isinstance(lit, bool):
        return
    if z3.is_and(lit):
        for c in lit.children():
            add_fact(c)
        return
    neg = z3.is_not(lit)
    a = lit.arg(0) if neg else lit
    FACTS[a.get_id()] = (a, not neg)
    c = _CMPN.get(a.get_id())
    if c is not None:
        _note_bound(c, not neg)


# intervals of atoms, from facts that are linear in one atom: FACTS[("b", atom)] = (lo, lo_open, hi, hi_open)
_CMPN: dict = {}  # id of literal c < 0 -> (literal, c)


def _note_bound(c, strict_neg):
    c = c[1]
    at = [m for m in c.d if m]
    if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1:
        return
    i = at[0][0][0]
    coef, k = c.d[at[0]], c.d.get((), 0)
    v = Fraction(-k) / coef
    lo, lop, hi, hop = FACTS.get(("b", i), (None, False, None, False))
    upper = (coef > 0) == strict_neg
    if upper:
        if hi is None or v < hi or (v == hi and strict_neg):
            hi, hop = v, strict_neg
    else:
        if lo is None or v > lo or (v == lo and strict_neg):
            lo, lop = v, strict_neg
    FACTS[("b", i)] = (lo, lop, hi, hop)


def _imul(a, b):
    """product of intervals (lo, lo_open, hi, hi_open); None = unbounded side; only sign-definite or fully bounded"""
    if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
        lo = a[0] * b[0]
        if lo > 0:
            lop = a[1] or b[1]
        else:
            lop = not ((a[0] == 0 and not a[1]) or (b[0] == 0 and not b[1]))
        if a[2] is None or b[2] is None:
            hi, hop = None, False
        else:
            hi = a[2] * b[2]
            hop = (a[3] or b[3]) and hi > 0
        return (lo, lop, hi, hop)
    if None in (a[0], a[2], b[0], b[2]):
        return None
    vs = [a[0] * b[0], a[0] * b[2], a[2] * b[0], a[2] * b[2]]
    return (min(vs), False, max(vs), False)


def interval(d):
    """interval of a polynomial from the bounds of its atoms, or None"""
    tot = (0, False, 0, False)
    for m, c in d.d.items():
        iv = (1, False, 1, False)
        for i, n in m:
            b = FACTS.get(("b", i))
            if b is None or n < 0:
                return None
            for _ in range(n):
                iv = _imul(iv, b)
                if iv is None:
                    return None
        lo, lop, hi, hop = iv
        lo, hi = (None if lo is None else lo * c), (None if hi is None else hi * c)
        if c < 0:
            lo, lop, hi, hop = hi, hop, lo, lop
        tot = (None if tot[0] is None or lo is None else tot[0] + lo, tot[1] or lop, None if tot[2] is None or hi is None else tot[2] + hi, tot[3] or hop)
        if tot[0] is None and tot[2] is None:
            return None
    return tot


def fold_fact(b):
    if isinstance(b, bool) or not FACTS:
        return b
    neg = z3.is_not(b)
    a = b.arg(0) if neg else b
    f = FACTS.get(a.get_id())
    if f is None:
        return b
    return (not f[1]) if neg else f[1]


# --------------------------------------------------------------------------- comparisons
def _lift(d, f):
    """If d = const + coef*ite(c,k1,k2) with numeric branches -> bite(c, f(..), f(..))."""
    if not isinstance(d, P):
        return None
    at = [(m, c) for m, c in d.d.items() if m]
    if len(at) != 1:
        return None
    m, c = at[0]
    if len(m) != 1 or m[0][1] != 1 or m[0][0] not in _ITE:
        return None
    cond, a, b = _ITE[m[0][0]]
    if not (_num(a) or isinstance(a, P)) or not (_num(b) or isinstance(b, P)):
        return None
    if not (_num(a) or _num(b)):
        return None
    k = d.d.get((), 0)
    return bite(cond, f(padd(pmul(a, c), k)), f(padd(pmul(b, c), k)))


_CMPC: dict = {}


def _canon(d):
    """scale d so that the leading |coef| is 1 -> (sign, canonical)"""
    lead = d.d[max(d.d)]
    s = 1 if lead > 0 else -1
    if abs(lead) == 1:
        return s, d
    if all(isinstance(v, int) or v.denominator == 1 for v in d.d.values()) and all(
        _ATOMS[i].is_int() for m in d.d for i, n in m
    ):
        return s, d  # keep integrality
    sc = abs(lead)
    return s, P({k: Fraction(v) / sc for k, v in d.d.items()})


def neg_p(d):
    """d < 0"""
    if _num(d):
        return d < 0
    r = _lift(d, neg_p)
    if r is not None:
        return r
    _, c = _canon(d)
    k = ("n", c.key())
    r = _CMPC.get(k)
    if r is None:
        # canonical orientation: use (c<0) if leading coef>0 else (−c > 0)
        r = z3e(c) < 0
        _CMPC[k] = r
        _CMPN[r.get_id()] = (r, c)
    r = fold_fact(r)
    if FACTS and not isinstance(r, bool):
        iv = interval(c)
        if iv is not None:
            lo, lop, hi, hop = iv
            if hi is not None and (hi < 0 or (hi == 0 and hop)):
                return True
            if lo is not None and lo >= 0:
                return False
    return r


def zero_p(d):
    if _num(d):
        return d == 0
    r = _lift(d, zero_p)
    if r is not None:
        return r
    s, c = _canon(d)
    if s < 0:
        c = P({k: -v for k, v in c.d.items()})
    k = ("z", c.key())
    r = _CMPC.get(k)
    if r is None:
        r = z3e(c) == 0
        _CMPC[k] = r
    r = fold_fact(r)
    if FACTS and not isinstance(r, bool):
        iv = interval(c)
        if iv is not None:
            lo, lop, hi, hop = iv
            if (hi is not None and (hi < 0 or (hi == 0 and hop))) or (lo is not None and (lo > 0 or (lo == 0 and lop))):
                return False
    return r


# --------------------------------------------------------------------------- extended reals
class Ext:
    """possibly non-finite: p (+inf), n (-inf), a (nan) mutually exclusive bools; v finite part."""
    __slots__ = ("p", "n", "a", "v")

    def __init__(self, p, n, a, v):
        self.p, self.n, self.a, self.v = p, n, a, v

    def __repr__(self):
        return f"Ext(p={self.p}, n={self.n}, a={self.a}, v={self.v})"


def mkext(p, n, a, v):
    if p is False and n is False and a is False:
        return v
    if p is True:
        return math.inf
    if n is True:
        return -math.inf
    if a is True:
        return math.nan
    return Ext(p, n, a, v)


def ext(x):
    if isinstance(x, Ext):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return Ext(False, False, True, 0)
        return Ext(x > 0, x < 0, False, 0)
    return Ext(False, False, False, x)


def finite(x):
    return not isinstance(x, (Ext, float))


def is_nan(x):
    return ext(x).a


def is_finite(x):
    e = ext(x)
    return bnot(bor(e.p, e.n, e.a))


def is_posinf(x):
    return ext(x).p


def is_neginf(x):
    return ext(x).n


# --------------------------------------------------------------------------- public arithmetic
def add(a, b):
    if finite(a) and finite(b):
        return padd(a, b)
    a, b = ext(a), ext(b)
    nan = bor(a.a, b.a, band(a.p, b.n), band(a.n, b.p))
    p = band(bor(a.p, b.p), bnot(nan))
    n = band(bor(a.n, b.n), bnot(nan))
    return mkext(p, n, nan, padd(a.v, b.v))


def neg(a):
    if finite(a):
        return pneg(a)
    a = ext(a)
    return mkext(a.n, a.p, a.a, pneg(a.v))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if finite(a) and finite(b):
        return pmul(a, b)
    a, b = ext(a), ext(b)
    ai, bi = bor(a.p, a.n), bor(b.p, b.n)
    # signs
    apos = bor(a.p, band(bnot(ai), neg_p(pneg(a.v))))
    aneg = bor(a.n, band(bnot(ai), neg_p(a.v)))
    bpos = bor(b.p, band(bnot(bi), neg_p(pneg(b.v))))
    bneg = bor(b.n, band(bnot(bi), neg_p(b.v)))
    az = band(bnot(bor(apos, aneg)))
    bz = band(bnot(bor(bpos, bneg)))
    anyinf = bor(ai, bi)
    nan = bor(a.a, b.a, band(ai, bz), band(bi, az))
    pos = bor(band(apos, bpos), band(aneg, bneg))
    p = band(anyinf, pos, bnot(nan))
    n = band(anyinf, bnot(pos), bnot(nan))
    return mkext(p, n, nan, pmul(a.v, b.v))


DIV_EXT = [False]  # when True symbolic denominators may be zero -> Ext result


def div(a, b):
    if finite(a) and finite(b):
        if _num(b):
            if b == 0:
                return mul(a, math.inf) if not (_num(a) and a == 0) else math.nan
            return pdiv(a, b)
        if not DIV_EXT[0]:
            return pdiv(a, b)
        z = zero_p(b)
        if z is False:
            return pdiv(a, b)
        # x/0: sign of zero is taken as +0
        p = band(z, neg_p(pneg(a)))
        n = band(z, neg_p(a))
        nan = band(z, zero_p(a))
        return mkext(p, n, nan, pdiv(a, b))
    a, b = ext(a), ext(b)
    bi = bor(b.p, b.n)
    ai = bor(a.p, a.n)
    # a / inf = 0 (finite a), nan if both inf
    nan = bor(a.a, b.a, band(ai, bi))
    if bi is False:
        binv = div(1, b.v)
    else:
        safe = ite(bi, 1, b.v)
        binv = ite(bi, 0, div(1, safe))
    r = mul(mkext(a.p, a.n, a.a, a.v), binv)
    r = ext(r)
    # mul above gives nan for inf*0 when b infinite; covered by nan; for finite a fine
    return mkext(band(r.p, bnot(nan)), band(r.n, bnot(nan)), bor(nan, r.a), r.v)


def lt(a, b):
    if finite(a) and finite(b):
        return neg_p(padd(a, pneg(b)))
    a, b = ext(a), ext(b)
    nonan = bnot(bor(a.a, b.a))
    afin = bnot(bor(a.p, a.n))
    bfin = bnot(bor(b.p, b.n))
    r = bor(
        band(a.n, bnot(b.n)),
        band(b.p, bnot(a.p)),
        band(afin, bfin, neg_p(padd(a.v, pneg(b.v)))),
    )
    return band(nonan, r)


def eq(a, b):
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return bnot(bxor(a, b))
    if isinstance(a, Key) or isinstance(b, Key):
        return a == b
    if finite(a) and finite(b):
        return zero_p(padd(a, pneg(b)))
    a, b = ext(a), ext(b)
    afin = bnot(bor(a.p, a.n))
    bfin = bnot(bor(b.p, b.n))
    nonan = bnot(bor(a.a, b.a))
    return band(nonan, bor(band(a.p, b.p), band(a.n, b.n), band(afin, bfin, zero_p(padd(a.v, pneg(b.v))))))


def same(a, b):
    """like eq, but nan is the same as nan"""
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return eq(a, b)
    if finite(a) and finite(b):
        return eq(a, b)
    return bor(band(is_nan(a), is_nan(b)), eq(a, b))


def le(a, b):
    if finite(a) and finite(b):
        return bnot(lt(b, a))
    return bor(lt(a, b), eq(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def ne(a, b):
    return bnot(eq(a, b))


class Key:
    """opaque PRNG key: a path of splits from a root, or an ite of keys"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Key) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"Key{self.k}"


def _same_struct(a, b):
    if type(a) is not type(b):
        if _num(a) and _num(b):
            return a == b
        return False
    if isinstance(a, bool):
        return a == b
    if isinstance(a, z3.BoolRef):
        return a.get_id() == b.get_id()
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, Ext):
        return all(_same_struct(x, y) for x, y in ((a.p, b.p), (a.n, b.n), (a.a, b.a), (a.v, b.v)))
    if isinstance(a, (P, Key)):
        return a == b
    return a == b


def ite(c, a, b):
    c = fold_fact(c) if not isinstance(c, bool) else c
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return bite(c, a, b)
    if _same_struct(a, b):
        return a
    if isinstance(a, Key) or isinstance(b, Key):
        if z3.is_not(c):
            return ite(c.arg(0), b, a)
        return Key(("ite", _B(c), a, b))
    if finite(a) and finite(b):
        if z3.is_not(c):
            return ite(c.arg(0), b, a)
        a = _under(c, True, a)
        b = _under(c, False, b)
        if _same_struct(a, b):
            return a
        # factor out a common additive part: a = b + const
        diff = padd(a, pneg(b))
        if _num(diff) and not _num(a):
            # b + ite(c, diff, 0)
            return padd(b, _ite_atom(c, diff, 0))
        return _ite_atom(c, a, b)
    a, b = ext(a), ext(b)
    if isinstance(c, z3.BoolRef) and z3.is_not(c):
        c, a, b = c.arg(0), b, a
    # don't care finite part where non-finite
    if b.p is True or b.n is True or b.a is True:
        v = a.v
    elif a.p is True or a.n is True or a.a is True:
        v = b.v
    else:
        v = ite(c, a.v, b.v)
    return mkext(bite(c, a.p, b.p), bite(c, a.n, b.n), bite(c, a.a, b.a), v)


class _B:
    """hashable wrapper of a z3 bool"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return self.e.get_id() == o.e.get_id()

    def __hash__(self):
        return self.e.get_id()

    def __repr__(self):
        return "?"


def _under(c, val, x):
    """simplify x knowing c == val, one level (single ite atoms)."""
    if not isinstance(x, P):
        return x
    cid = c.get_id()
    hit = None
    for m in x.d:
        for i, n in m:
            t = _ITE.get(i)
            if t is not None and t[0].get_id() == cid:
                hit = i
                break
        if hit is not None:
            break
    if hit is None:
        return x
    t = _ITE[hit]
    try:
        y = subst_atom(x, hit, t[1] if val else t[2])
    except ZeroDivisionError:
        return x
    return _under(c, val, y)


def subst_atom(x, aid, val):
    out = 0
    for m, co in x.d.items():
        rest = tuple((i, n) for i, n in m if i != aid)
        n = sum(n for i, n in m if i == aid)
        t = P({rest: co}) if rest else co
        if n:
            t = pmul(t, ppow(val, n))
        out = padd(out, t)
    return out


def _ite_atom(c, a, b):
    ints = _isint(a) and _isint(b)
    ea, eb = (z3e(a, "int"), z3e(b, "int")) if ints else (_toreal(z3e(a)), _toreal(z3e(b)))
    e = z3.If(c, ea, eb)
    p = atom(e)
    _ITE[e.get_id()] = (c, a, b)
    return p


def _toreal(e):
    return z3.ToReal(e) if e.is_int() else e


def _isint(x):
    if isinstance(x, int):
        return True
    if isinstance(x, P):
        return all(isinstance(v, int) or v.denominator == 1 for v in x.d.values()) and all(
            n > 0 and _ATOMS[i].is_int() for m in x.d for i, n in m
        )
    return False


def minimum(a, b):
    if not finite(a) or not finite(b):
        nan = bor(is_nan(a), is_nan(b))
        r = ite(lt(a, b), a, b)
        return ite(nan, math.nan, r)
    return ite(lt(a, b), a, b)


def maximum(a, b):
    if not finite(a) or not finite(b):
        nan = bor(is_nan(a), is_nan(b))
        r = ite(lt(a, b), b, a)
        return ite(nan, math.nan, r)
    return ite(lt(a, b), b, a)


def absolute(a):
    return ite(lt(a, 0), neg(a), a)


def sign(a):
    if finite(a):
        return ite(lt(a, 0), -1, ite(eq(a, 0), 0, 1))
    return ite(is_nan(a), math.nan, ite(lt(a, 0), -1, ite(eq(a, 0), 0, 1)))


def from_float(x):
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    f = Fraction(x)
    return int(f) if f.denominator == 1 else f


def concrete(x):
    return isinstance(x, (bool, int, Fraction, float))


def to_float(x):
    if isinstance(x, (int, Fraction)):
        return float(x)
    return x
