"""Two- (or more-) coloured trees for SDEs: colour 0 is the drift (weight 2), the other colours are noise channels (weight 1), in powers
of the square root of the step size.  Component tau solves dy_tau = prod_{children c} y_c * (dt or dW_k) from 0."""
from fractions import Fraction as F
import functools as ft


def weight(t):
    return (2 if t[0] == 0 else 1) + sum(weight(c) for c in t[1])


@ft.lru_cache(None)
def trees(w, m):
    out = []
    for c in range(m + 1):
        r = w - (2 if c == 0 else 1)
        if r >= 0:
            out += [(c, f) for f in forests(r, m)]
    return out


@ft.lru_cache(None)
def forests(w, m):
    if w == 0:
        return [()]
    out = set()
    for k in range(1, w + 1):
        for t in trees(k, m):
            for f in forests(w - k, m):
                out.add(tuple(sorted(f + (t,))))
    return sorted(out)


def additive(t):
    """no noise node depends on anything"""
    return (t[0] == 0 or t[1] == ()) and all(additive(c) for c in t[1])


def additive_time(t):
    """noise nodes depend on nothing but time"""
    return (t[0] == 0 or all(c == (0, ()) for c in t[1])) and all(additive_time(c) for c in t[1])


def minus(f, i):
    return f[:i] + f[i + 1:]


@ft.lru_cache(None)
def moment(forest, ito=False):
    """E prod of the exact iterated integrals of the trees in forest, as the coefficient of h^(weight/2)"""
    w = sum(weight(t) for t in forest)
    if w == 0:
        return F(1)
    r = F(0)
    for i, t in enumerate(forest):
        if t[0] == 0:
            r += moment(tuple(sorted(minus(forest, i) + t[1])), ito)
            continue
        if ito:
            for j, u in enumerate(forest):
                if j != i and u[0] == t[0]:
                    rest = tuple(v for k, v in enumerate(forest) if k not in (i, j))
                    r += F(1, 2) * moment(tuple(sorted(rest + t[1] + u[1])), ito)
        else:
            g = minus(forest, i) + t[1]
            for j, u in enumerate(g):
                if u[0] == t[0]:
                    r += F(1, 2) * moment(tuple(sorted(minus(g, j) + u[1])), ito)
    return r / F(w, 2)


g, f = (1, ()), (0, ())
_STRAT = {
    g: lambda h, W, H: W,
    f: lambda h, W, H: h,
    (1, (g,)): lambda h, W, H: W * W / 2,
    (1, (g, g)): lambda h, W, H: W * W * W / 3,
    (1, ((1, (g,)),)): lambda h, W, H: W * W * W / 6,
    (0, (g,)): lambda h, W, H: h * H + h * W / 2,
    (1, (f,)): lambda h, W, H: h * W / 2 - h * H,
}


def pathwise(t, ito, h, W, H):
    """exact iterated integral over one step in terms of the increment and the space-time Levy area (scalar noise, weight <= 3)"""
    if ito and t == (1, (g,)):
        return (W * W - h) / 2
    assert not ito or weight(t) <= 2
    return _STRAT[t](h, W, H)
