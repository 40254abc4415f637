"""Nondeterministic stand-ins for the pluggable parts of `diffeqsolve` (public extension points):
a solver and a step size controller whose every answer is read from symbolic input arrays."""
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import diffrax as dfx
from diffrax import AbstractSolver, AbstractStepSizeController, AbstractTerm, RESULTS


class SymInterp(dfx.AbstractLocalInterpolation):
    """value at t: a + 2t + 3 t0 + 5 t1 (so both the step and the evaluation point are identifiable)"""
    t0: object
    t1: object
    a: object

    def evaluate(self, t0, t1=None, left=True):
        del left
        f = lambda t: jtu.tree_map(lambda a: a + 2 * t + 3 * self.t0 + 5 * self.t1, self.a)
        if t1 is None:
            return f(t0)
        return jtu.tree_map(lambda x, y: x - y, f(t1), f(t0))

    def derivative(self, t, left=True):
        return jtu.tree_map(lambda a: a + 7 * t + 13 * self.t0 + 17 * self.t1, self.a)


class SymSolver(AbstractSolver):
    """With k = number of accepted steps so far and s a running solver state:
    y1 = y0 + D[k] + (t1-t0) + [made_jump] G[k];  error = s + D[k];  s1 = s + D[k] + t1."""
    D: object
    A: object
    G: object
    s0: object
    R: object = None  # int result codes or None
    term_structure = AbstractTerm
    interpolation_cls = SymInterp

    def order(self, terms):
        return 1

    def error_order(self, terms):
        return 1

    def strong_order(self, terms):
        return None

    def init(self, terms, t0, t1, y0, args):
        return (jnp.asarray(0), jnp.asarray(self.s0))

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        k, s = solver_state
        inc = self.D[k] + (t1 - t0)
        if made_jump is not False:
            inc = inc + jnp.where(made_jump, self.G[k], 0.0)
        y1 = jtu.tree_map(lambda y: y + inc, y0)
        err = jtu.tree_map(lambda y: jnp.broadcast_to(s + self.D[k], jnp.shape(y)), y0)
        s1 = s + self.D[k] + t1
        dense = dict(a=jtu.tree_map(lambda y: y + s + self.A[k], y0))
        res = RESULTS.successful if self.R is None else result_of(self.R[k])
        return y1, err, dense, (k + 1, s1), res

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)


CODES = ["successful", "singular", "breakdown", "nonlinear_max_steps_reached", "dt_min_reached"]


def result_of(code):
    r = RESULTS.successful
    for i, n in enumerate(CODES):
        if i:
            r = RESULTS.where(code == i, getattr(RESULTS, n), r)
    return r


def result_flags(result):
    """{name: bool} for every kind of result"""
    names = CODES + ["max_steps_reached", "event_occurred"]
    return {n: (result == getattr(RESULTS, n)) for n in names}


class SymController(AbstractStepSizeController):
    """attempt j: accept iff KEEP[j]; the next step starts at t1+DEL[j] (accept) / t0 (reject), and is asked to
    have length DT[j]. Records what the integration loop passed to it, as its own state."""
    KEEP: object
    DT: object
    DEL: object
    dt_init: object
    JUMP: object = None
    R: object = None

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        n = len(self.KEEP)
        z = jnp.zeros(n)
        return t0 + self.dt_init, dict(j=jnp.asarray(0), t0=z, t1=z, y0=z, y1=z, err=z)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        st = controller_state
        j = st["j"]
        keep = self.KEEP[j]
        tprev = jnp.where(keep, t1 + self.DEL[j], t0)
        tnext = tprev + self.DT[j]
        jump = False if self.JUMP is None else self.JUMP[j]
        res = RESULTS.successful if self.R is None else result_of(self.R[j])
        first = lambda y: jtu.tree_leaves(y)[0]
        new = dict(
            j=j + 1,
            t0=st["t0"].at[j].set(t0),
            t1=st["t1"].at[j].set(t1),
            y0=st["y0"].at[j].set(first(y0)),
            y1=st["y1"].at[j].set(first(y1_candidate)),
            err=st["err"].at[j].set(first(y_error)),
        )
        return keep, tprev, tnext, jump, new, res


import optimistix as optx


class SymRoot(optx.AbstractRootFinder):
    """Claims that R is the root; reports success iff the function it was given is (nearly) zero there and R lies in
    the bracket it was given."""
    R: object
    tol: float = 2.0**-20
    rtol: float = 1e-3
    atol: float = 1e-3
    norm = staticmethod(optx.max_norm)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return None

    def step(self, fn, y, args, options, state, tags):
        return y, state, None

    def terminate(self, fn, y, args, options, state, tags):
        f, _ = fn(jnp.asarray(self.R), args)
        ok = (self.R >= options["lower"]) & (self.R <= options["upper"])
        for x in jtu.tree_leaves(f):
            ok = ok & (jnp.abs(x) <= self.tol)
        return jnp.asarray(True), optx.RESULTS.where(ok, optx.RESULTS.successful, optx.RESULTS.nonlinear_divergence)

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return jnp.asarray(self.R), aux, {}
