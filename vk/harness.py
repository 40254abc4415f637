from __future__ import annotations
import hashlib
import json
import math
import os
import pickle
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
from . import scalar as S
from . import interp as I
from .scalar import P, Ext

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --------------------------------------------------------------------------- solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.trivial = 0
        self.by_kind = {}

    def add(self, kind, r, t):
        self.queries += 1
        self.solver_s += t
        setattr(self, r, getattr(self, r) + 1)
        k = self.by_kind.setdefault(kind, {"unsat": 0, "sat": 0, "unknown": 0})
        k[r] += 1


STATS = Stats()


def solve(assertions, timeout_s=60.0, kind="property", want_model=True, seed=1, logic=None, tactics=None):
    """returns (result, model) with result in sat/unsat/unknown"""
    t0 = time.time()
    assertions = [a for a in assertions if a is not True]
    if any(a is False for a in assertions):
        STATS.trivial += 1
        STATS.add(kind, "unsat", 0.0)
        return "unsat", None
    attempts = tactics or ["smt", "nlsat"]
    res, model = "unknown", None
    for t in attempts:
        left = timeout_s - (time.time() - t0)
        if left <= 0.05:
            break
        share = left if t == attempts[-1] else left * 0.6
        if t == "smt":
            s = z3.SolverFor(logic) if logic else z3.Solver()
        elif t == "nlsat":
            s = z3.Tactic("qfnra-nlsat").solver()
        elif t == "lra":
            s = z3.SolverFor("QF_LRA")
        else:
            s = z3.Tactic(t).solver()
        s.set("timeout", int(share * 1000))
        try:
            s.set("random_seed", seed)
        except z3.Z3Exception:
            pass
        try:
            for a in assertions:
                s.add(a)
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            res = "unsat"
            break
        if r == z3.sat:
            res = "sat"
            model = s.model()
            break
    STATS.add(kind, res, time.time() - t0)
    return res, model


def make_pruner(assumes, timeout_ms=300):
    """solver-backed folding of branch conditions under the assumptions and the path"""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for a in assumes:
        if a is not True:
            s.add(a)
    cache = {}

    def prune(ctx, g):
        key = (g.get_id(), tuple(p.get_id() for p in ctx.path if not isinstance(p, bool)), len(ctx.defs))
        if key in cache:
            return cache[key][0]
        t0 = time.time()
        s.push()
        for p in ctx.path:
            if p is not True:
                s.add(p)
        for d in ctx.defs:
            s.add(d)
        out = g
        s.push()
        s.add(z3.Not(g))
        r = s.check()
        s.pop()
        if r == z3.unsat:
            out = True
        else:
            s.push()
            s.add(g)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                out = False
        s.pop()
        k = STATS.by_kind.setdefault("pruning", {"count": 0})
        k["count"] += 1
        ctx.prune_s += time.time() - t0
        cache[key] = (out, g, list(ctx.path))
        return out

    return prune


# --------------------------------------------------------------------------- model evaluation
def mval(model, x):
    """evaluate scalar under model -> python value"""
    if isinstance(x, (bool, int, Fraction, float)):
        return x
    if isinstance(x, z3.BoolRef):
        return z3.is_true(model.eval(x, model_completion=True))
    if isinstance(x, P):
        v = model.eval(S.z3e(x), model_completion=True)
        return znum(v)
    if isinstance(x, Ext):
        if mval(model, x.a):
            return math.nan
        if mval(model, x.p):
            return math.inf
        if mval(model, x.n):
            return -math.inf
        return mval(model, x.v)
    raise TypeError(type(x))


def znum(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_algebraic_value(v):
        return znum(v)
    return Fraction(0)


# --------------------------------------------------------------------------- ops used by the oracles (dual mode)
class Ops:
    """Oracle operations. Exact when symbolic; with tolerance when judging a concrete replay."""

    def __init__(self, replay=False, rtol=1e-7, atol=1e-9):
        self.replay = replay
        self.rtol, self.atol = rtol, atol
        self.side = []  # side constraints (monomial bounds)
        self._mono = {}

    # booleans
    and_ = staticmethod(S.band)
    or_ = staticmethod(S.bor)
    not_ = staticmethod(S.bnot)
    implies = staticmethod(S.implies)
    ite = staticmethod(S.ite)
    add = staticmethod(S.add)
    sub = staticmethod(S.sub)
    mul = staticmethod(S.mul)
    div = staticmethod(S.div)
    neg = staticmethod(S.neg)
    abs = staticmethod(S.absolute)
    min = staticmethod(S.minimum)
    max = staticmethod(S.maximum)
    isnan = staticmethod(S.is_nan)
    isfinite = staticmethod(S.is_finite)

    def iff(self, a, b):
        return S.bnot(S.bxor(a, b))

    def sum(self, xs):
        r = 0
        for x in xs:
            r = S.add(r, x)
        return r

    def poly(self, cs, x):
        """cs lowest first"""
        r = 0
        for c in reversed(list(cs)):
            r = S.add(S.mul(r, x), c)
        return r

    def eq(self, a, b):
        """equal (nan == nan); toleranced in replay"""
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            return S.eq(a, b)
        if self.replay:
            fa, fb = float(a), float(b)
            if math.isnan(fa) or math.isnan(fb):
                return math.isnan(fa) and math.isnan(fb)
            if math.isinf(fa) or math.isinf(fb):
                return fa == fb
            return abs(fa - fb) <= self.atol + self.rtol * max(abs(fa), abs(fb))
        return S.same(a, b)

    def exact(self, a, b):
        """bitwise-intended equality (times, flags): no tolerance even in replay"""
        return S.same(a, b)

    def le(self, a, b):
        if self.replay:
            fa, fb = float(a), float(b)
            return fa <= fb + self.atol + self.rtol * max(abs(fa), abs(fb))
        return S.le(a, b)

    def lt(self, a, b):
        if self.replay:
            fa, fb = float(a), float(b)
            return fa < fb + self.atol + self.rtol * max(abs(fa), abs(fb))
        return S.lt(a, b)

    # strict versions w/out tolerance, for use as guards
    glt = staticmethod(S.lt)
    gle = staticmethod(S.le)
    geq = staticmethod(S.eq)

    def near(self, a, b, tol=None, bounds=1):
        """|a-b| <= tol for all values of the variables, by linear abstraction over monomials
        (each monomial bounded by the given variable bounds)."""
        if self.replay:
            return self.eq(a, b)
        d = S.sub(a, b)
        tol = Fraction(1, 10**9) if tol is None else tol
        if not S.finite(d):
            return S.same(a, b)
        if isinstance(d, (int, Fraction)):
            return abs(d) <= tol
        terms = []
        for m, c in d.d.items():
            if m == ():
                terms.append(S.rv(Fraction(c)))
                continue
            u = self._mono.get(m)
            if u is None:
                u = z3.Real("mono!" + "_".join(f"{i}^{n}" for i, n in m))
                self._mono[m] = u
                b = Fraction(1)
                for i, n in m:
                    bb = bounds(S._ATOMS[i]) if callable(bounds) else bounds
                    if isinstance(bb, tuple):  # (lo, hi) on |x|
                        lo, hi = bb
                        b *= Fraction(hi) ** n if n > 0 else Fraction(1) / Fraction(lo) ** (-n)
                    else:
                        if n < 0:
                            raise ValueError("negative power needs lower bound")
                        b *= Fraction(bb) ** n
                self.side.append(z3.And(u <= S.rv(b), u >= -S.rv(b)))
            terms.append(S.rv(Fraction(c)) * u)
        e = z3.Sum(terms)
        return z3.And(e <= S.rv(Fraction(tol)), e >= -S.rv(Fraction(tol)))


# --------------------------------------------------------------------------- symbolic inputs
def sym_array(name, shape, kind="real"):
    a = I.obj(shape)
    for idx in np.ndindex(*shape):
        nm = name + ("" if not idx else "_" + "_".join(map(str, idx)))
        a[idx] = S.real(nm) if kind == "real" else S.integer(nm) if kind == "int" else z3.Bool(nm)
    return a


DT = {"real": jnp.float64, "int": jnp.int64, "bool": jnp.bool_}


class In:
    def __init__(self, shape=(), kind="real", values=None):
        self.shape, self.kind, self.values = tuple(shape), kind, values


class Violation(Exception):
    pass


class Encoded:
    """A real function, traced and symbolically executed."""

    def __init__(self, fn, inputs: dict[str, In], assumes=None, eps=None, while_bound=8, prune=False,
                 handlers=None, sqrt_nan=False, div_ext=False, facts=True):
        S.FACTS.clear()
        S.DIV_EXT[0] = div_ext
        self.fn, self.spec = fn, inputs
        self.assumes_fn = assumes
        self.names = list(inputs)
        self.sym = {}
        for n, s in inputs.items():
            if s.values is not None:
                a = I.obj(s.shape)
                vals = np.asarray(s.values, dtype=object).reshape(s.shape)
                for idx in np.ndindex(*s.shape):
                    v = vals[idx]
                    a[idx] = S.from_float(v) if isinstance(v, float) else v
                self.sym[n] = a
            else:
                self.sym[n] = sym_array(n, s.shape, s.kind)
        self.I = Inputs(self.sym)
        self.assumes = [a for a in (assumes(self.I) if assumes else []) if a is not True]
        self.ctx = I.Ctx(eps=eps, while_bound=while_bound, sqrt_nan=sqrt_nan)
        self.ctx.handlers.update(handlers or {})
        if facts:
            for a in self.assumes:
                S.add_fact(a)
        if prune:
            self.ctx.prune = make_pruner(self.assumes)
        t0 = time.time()
        avals = {n: jax.ShapeDtypeStruct(s.shape, DT[s.kind]) for n, s in inputs.items()}
        closed, out_shape = jax.make_jaxpr(fn, return_shape=True)(avals)
        self.trace_s = time.time() - t0
        flat_names, in_tree = jtu.tree_flatten({n: n for n in inputs})
        flat = [self.sym[n] for n in flat_names]
        t0 = time.time()
        outs = I.eval_jaxpr(self.ctx, closed.jaxpr, [I.lift(c, self.ctx) for c in closed.consts], flat)
        self.enc_s = time.time() - t0
        self.out_tree = jtu.tree_structure(out_shape)
        self.out_avals = jtu.tree_leaves(out_shape)
        self.O = jtu.tree_unflatten(self.out_tree, outs)
        S.FACTS.clear()
        self._jit = None

    def concrete_inputs(self, model):
        out = {}
        for n, s in self.spec.items():
            a = self.sym[n]
            v = np.empty(s.shape, dtype=np.dtype(DT[s.kind]))
            for idx in np.ndindex(*s.shape):
                x = mval(model, a[idx])
                v[idx] = float(x) if s.kind == "real" else x
            out[n] = v
        return out

    def run_real(self, conc):
        if self._jit is None:
            self._jit = jax.jit(self.fn)
        outs = self._jit({n: jnp.asarray(v) for n, v in conc.items()})
        return jtu.tree_map(lambda o: I.lift(np.asarray(o)), outs)

    def model_outputs(self, model):
        return jtu.tree_map(lambda a: I.ew(lambda x: mval(model, x), a), self.O)


class Inputs:
    def __init__(self, d):
        self.__dict__.update(d)
        self._d = d

    def __getitem__(self, k):
        return self._d[k]


def lift_inputs(conc, eps=None):
    return Inputs({n: I.lift(v) for n, v in conc.items()})


# --------------------------------------------------------------------------- a check run
class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cases = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.errors = []
        self.functions = set()
        self.bounds = []
        self.assumptions = []
        self.eqns = 0
        self.fidelity = {"compared": 0, "agree": 0, "mismatch": []}
        self.budget = 780 if tier == "quick" else 7200
        self.known_findings = load_known(pid)
        self.shard, self.nth = os.environ.get("VK_SHARD"), 0

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def left(self):
        return self.budget - self.elapsed()

    def log(self, *a):
        print(f"[{self.pid} {self.elapsed():6.1f}s]", *a, flush=True)

    # ---- generic case -------------------------------------------------------------
    def case(self, name, fn, inputs, prop, assumes=None, extra=None, covers=None, timeout=60, replay_tries=3,
             replay_fn=None, tol=None, errors="ignore", batch=True, tactics=None, margin=None, logic=None,
             concretise=None, fid=True, err_fn=None, **enc_kw):
        """Encode fn, discharge prop (list of (label, bool)) under assumes."""
        if not self.claim():
            return None
        t0 = time.time()
        try:
            enc = Encoded(fn, inputs, assumes, **enc_kw)
        except I.Unsupported as e:
            self.errors.append(f"{name}: unsupported: {e}")
            self.log("UNSUPPORTED", name, str(e)[:300])
            if os.environ.get("VK_DEBUG"):
                traceback.print_exc()
            return None
        except Exception as e:
            # The real code may itself abort on valid inputs: that breaks the property, if it does so concretely too.
            conc = raises_concretely(fn, inputs, assumes, self.seed)
            if conc is not None:
                self.violation(name, "raises " + type(e).__name__, conc, detail={"exception": str(e)[:2000]})
                return None
            self.errors.append(f"{name}: {type(e).__name__}: {e}")
            self.log("ENCODING ERROR", name, type(e).__name__, str(e)[:300])
            if os.environ.get("VK_DEBUG"):
                traceback.print_exc()
            return None
        self.functions |= enc.ctx.functions
        self.eqns += enc.ctx.eqns
        ops = Ops()
        enc.errors_mode, enc.err_fn = errors, err_fn
        if errors == "expose":
            er = S.bor(*[c for c, _ in enc.ctx.errors])
            props = list(prop(enc.I, enc.O, ops, er))
        else:
            props = list(prop(enc.I, enc.O, ops))
        base = list(enc.assumes) + enc.ctx.constraints() + [c for c in (extra(enc) if extra else [])]
        rec = {"case": name, "eqns": enc.ctx.eqns, "trace_s": round(enc.trace_s, 2), "encode_s": round(enc.enc_s, 2), "props": len(props)}
        # 1. vacuity: the assumptions are satisfiable (and each cover goal is reachable)
        goals = [("reachable", True)] + list((covers(enc.I, enc.O, ops) if covers else []))
        witness = None
        for gname, g in goals:
            r, m = solve(base + ops.side + [g], timeout, kind="vacuity", seed=self.seed, tactics=tactics, logic=logic)
            if r == "unsat":
                self.errors.append(f"{name}: vacuous, {gname} unreachable")
                self.log("VACUOUS", name, gname)
            if m is not None:
                witness = m
                if fid:
                    self._fidelity(enc, m, name + "/" + gname)
        # 2. unwinding assertions
        uw = S.bor(*enc.ctx.unwind)
        if uw is not False:
            r, m = solve(base + [uw], timeout, kind="unwinding", seed=self.seed, tactics=tactics)
            if r != "unsat":
                self.inconclusive.append(f"{name}: unwinding {r}")
                self.log("UNWINDING", name, r)
        # 3. runtime errors raised by the code
        if errors == "forbid":
            er = S.bor(*[c for c, _ in enc.ctx.errors])
            if er is not False:
                props.append(("no-runtime-error", S.bnot(er)))
        # 4. properties
        live = [(l, p) for l, p in props if p is not True]
        STATS.trivial += len(props) - len(live)
        for _ in range(len(props) - len(live)):
            STATS.add("property", "unsat", 0.0)
        groups = []
        if batch and len(live) > 1:
            r, m = solve(base + ops.side + [S.bnot(S.band(*[p for _, p in live]))], timeout, seed=self.seed, tactics=tactics, logic=logic)
            if r == "unsat":
                groups = []
            else:
                groups = live
        else:
            groups = live
        bad = 0
        for label, p in groups:
            if self.left() < 5:
                self.inconclusive.append(f"{name}/{label}: out of time")
                continue
            q = S.bnot(p)
            r, m = solve(base + ops.side + [q], timeout, seed=self.seed, tactics=tactics, logic=logic)
            if r == "unsat":
                continue
            if r == "unknown":
                self.inconclusive.append(f"{name}/{label}: unknown")
                self.log("UNKNOWN", name, label)
                continue
            ok = self._replay(enc, m, name, label, prop, base + ops.side + [q], replay_fn, tol, concretise)
            if ok:
                bad += 1
                if bad >= 2:
                    break
        rec["wall_s"] = round(time.time() - t0, 2)
        self.cases.append(rec)
        self.log(f"case {name}: props={len(props)} live={len(live)} eqns={enc.ctx.eqns} {rec['wall_s']}s viol={bad}")
        return enc

    def _fidelity(self, enc, model, name):
        try:
            conc = enc.concrete_inputs(model)
            real = jtu.tree_leaves(enc.run_real(conc))
            modl = jtu.tree_leaves(enc.model_outputs(model))
            ok = True
            for r, m in zip(real, modl):
                for a, b in zip(r.reshape(-1), m.reshape(-1)):
                    if isinstance(a, bool) or isinstance(b, bool):
                        ok &= bool(a) == bool(b)
                        continue
                    fa, fb = float(a), float(b)
                    if math.isnan(fa) and math.isnan(fb):
                        continue
                    if fa == fb:
                        continue
                    ok &= abs(fa - fb) <= 1e-6 * (1 + max(abs(fa), abs(fb)))
            self.fidelity["compared"] += 1
            if ok:
                self.fidelity["agree"] += 1
            else:
                self.fidelity["mismatch"].append(name)
        except Exception as e:
            self.fidelity.setdefault("failed", []).append(f"{name}: {type(e).__name__}: {str(e)[:120]}")

    def _replay(self, enc, model, name, label, prop, q, replay_fn, tol, concretise):
        """Replay the counterexample on the real code. True if it reproduces."""
        tries = [model]
        last = None
        for k in range(12):
            if k > 0:
                if k >= 6 or self.left() < 20:
                    break
                r, m = solve(q + self._diversify(enc, k), 15, kind="counterexample-diversification", seed=self.seed + 17 * k)
                if m is None:
                    continue
            else:
                m = model
            conc = enc.concrete_inputs(m)
            if concretise is not None:
                conc = concretise(conc)
            try:
                fails = self.judge(enc, conc, prop, replay_fn, tol, label)
            except Exception as e:
                last = f"{type(e).__name__}: {str(e)[:600]}"
                if enc.errors_mode == "forbid" and not isinstance(e, (TypeError, AttributeError, KeyError, IndexError)):
                    self.violation(name, label + ": raises", conc, detail={"failed": [last]})
                    return True
                continue
            if fails:
                self.violation(name, fails[0], conc, detail={"failed": fails})
                return True
            last = conc
        # random search around as a last attempt at a concrete reproduction
        rng = random.Random(self.seed)
        for k in range(40):
            conc = {}
            for n, s in enc.spec.items():
                if s.values is not None or s.kind != "real":
                    conc[n] = enc.concrete_inputs(model)[n]
                else:
                    conc[n] = np.array([rng.choice([-1, 1]) * rng.uniform(0.2, 1.5) for _ in range(int(np.prod(s.shape)))]).reshape(s.shape)
            try:
                # must satisfy the assumptions
                if enc.assumes_fn is not None and not all(a is True for a in enc.assumes_fn(lift_inputs(conc))):
                    continue
                fails = self.judge(enc, conc, prop, replay_fn, tol, label)
            except Exception:
                continue
            if fails:
                self.violation(name, fails[0], conc, detail={"failed": fails})
                return True
        self.inconclusive.append(f"{name}/{label}: counterexample did not reproduce on the real code")
        self.log("NON-REPRODUCING", name, label, str(last)[:400])
        return False

    def judge(self, enc, conc, prop, replay_fn=None, tol=None, label=None):
        ops = Ops(replay=True, **(tol or {}))
        if enc.errors_mode == "expose":
            try:
                outs, err = enc.run_real(conc), False
            except Exception:
                outs, err = None, True
                if enc.err_fn is not None:
                    outs = jax.jit(enc.err_fn)({n: jnp.asarray(v) for n, v in conc.items()})
                    outs = jtu.tree_map(lambda o: I.lift(np.asarray(o)), outs)
            res = list(prop(lift_inputs(conc), outs, ops, err))
        else:
            outs = enc.run_real(conc) if replay_fn is None else replay_fn(conc)
            res = list(prop(lift_inputs(conc), outs, ops))
        return [l for l, p in res if p is False]

    def _diversify(self, enc, k):
        """extra constraints steering the model to well-separated values"""
        out = []
        vs = []
        for n, s in enc.spec.items():
            if s.kind == "real" and s.values is None:
                vs += [x for x in enc.sym[n].reshape(-1) if isinstance(x, P)]
        es = [S.z3e(v) for v in vs]
        B = [8, 4, 100, 2, 16][k % 5]
        out += [z3.And(e <= B, e >= -B) for e in es]
        if k in (1, 3):
            out += [z3.Or(e >= z3.Q(1, 4), e <= -z3.Q(1, 4)) for e in es]
        return out

    def violation(self, name, label, conc, detail=None):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(f"{name}{label}".encode()).hexdigest()[:8]
        path = os.path.join(VERIF, "replays", f"{self.pid}_{h}.json")
        data = {
            "property": self.pid, "case": name, "label": label,
            "inputs": {n: np.asarray(v).tolist() for n, v in conc.items()} if isinstance(conc, dict) else conc,
            "detail": detail,
        }
        for kf in self.known_findings:
            if kf.get("case") == name and kf.get("label") == label:
                if kf not in self.known:
                    self.known.append(kf)
                return
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        self.violations.append({"case": name, "label": label, "replay": path})
        self.log("VIOLATION", name, label)

    # ---- several processes ---------------------------------------------------------
    def claim(self):
        self.nth += 1
        if self.shard is None:
            return True
        try:
            os.close(os.open(os.path.join(self.shard, f"case{self.nth}"), os.O_CREAT | os.O_EXCL))
            return True
        except FileExistsError:
            return False

    PARTS = ("cases", "violations", "known", "inconclusive", "errors")

    def dump(self, path, level, explanation):
        with open(path, "wb") as f:
            pickle.dump(dict(level=level, explanation=explanation, stats=STATS.__dict__, functions=self.functions, bounds=self.bounds, assumptions=self.assumptions, eqns=self.eqns,
                             fidelity=self.fidelity, nth=self.nth, **{k: getattr(self, k) for k in self.PARTS}), f)

    def merge(self, path):
        with open(path, "rb") as f:
            d = pickle.load(f)
        for k in self.PARTS:
            mine = getattr(self, k)
            mine.extend(x for x in d[k] if x not in mine)
        for k, v in d["stats"].items():
            if k == "by_kind":
                for kind, c in v.items():
                    mine = STATS.by_kind.setdefault(kind, {"unsat": 0, "sat": 0, "unknown": 0})
                    for r in c:
                        mine[r] = mine.get(r, 0) + c[r]
            else:
                setattr(STATS, k, getattr(STATS, k) + v)
        self.functions |= d["functions"]
        self.bounds, self.assumptions = d["bounds"], d["assumptions"]
        self.eqns += d["eqns"]
        for k in self.fidelity:
            self.fidelity[k] += d["fidelity"][k]
        if self.nth not in (0, d["nth"]):
            self.errors.append("the processes disagree on the cases")
        self.nth = d["nth"]
        return d["level"], d["explanation"]

    # ---- finish -----------------------------------------------------------------------
    def finish(self, level="other", explanation=""):
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "explanation": explanation,
                "functions_encoded": sorted(self.functions),
                "jaxpr_equations_executed_symbolically": self.eqns,
                "bounds": self.bounds,
                "cases": self.cases,
                "queries": {
                    "total": STATS.queries, "unsat": STATS.unsat, "sat": STATS.sat, "unknown": STATS.unknown,
                    "folded_to_true_by_exact_normalisation": STATS.trivial, "by_kind": STATS.by_kind,
                },
                "solver_s": round(STATS.solver_s, 3),
                "solver": f"z3 {z3.get_version_string()}",
                "encoding_fidelity": self.fidelity,
                "inconclusive": self.inconclusive,
                "errors": self.errors,
            },
            "assumptions": self.assumptions,
            "violations": self.violations,
            "wall_s": round(self.elapsed(), 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for kf in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {kf.get('what')}")
        for v in self.violations:
            print(f"VIOLATION property={self.pid} replay={v['replay']}")
        print(
            f"[{self.pid}] {self.tier}: {len(self.cases)} cases, {STATS.queries} queries ({STATS.unsat} unsat, {STATS.sat} sat, "
            f"{STATS.unknown} unknown), solver {STATS.solver_s:.1f}s, wall {self.elapsed():.1f}s, "
            f"inconclusive={len(self.inconclusive)} errors={len(self.errors)} fidelity={self.fidelity['agree']}/{self.fidelity['compared']}"
        )
        for x in self.inconclusive + self.errors:
            print("  note:", x)
        if self.violations:
            return 1
        if self.errors or self.inconclusive:
            return 2
        return 0


def raises_concretely(fn, inputs, assumes, seed):
    """run the real function on a concrete valid input; the inputs if it raises, else None"""
    sym = {}
    for n, s in inputs.items():
        if s.values is not None:
            sym[n] = np.asarray(s.values, dtype=object).reshape(s.shape)
        else:
            sym[n] = sym_array(n, s.shape, s.kind)
    cons = [a for a in (assumes(Inputs(sym)) if assumes else []) if a is not True]
    r, m = solve(cons, 30, kind="vacuity", seed=seed)
    if m is None:
        return None
    conc = {}
    for n, s in inputs.items():
        v = np.empty(s.shape, dtype=np.dtype(DT[s.kind]))
        for idx in np.ndindex(*s.shape):
            x = mval(m, sym[n][idx])
            v[idx] = float(x) if s.kind == "real" else x
        conc[n] = v
    try:
        fn({n: jnp.asarray(v) for n, v in conc.items()})
    except Exception:
        return conc
    return None


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k.get("property") == pid]
