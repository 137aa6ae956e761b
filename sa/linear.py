"""Linear arithmetic over monomials: p >= 0 as a non-negative combination of facts (exact, over the rationals)."""
from fractions import Fraction as Q
from . import expr as X


def domains(monos):
    """what the domains of the atoms say about the monomials"""
    out = []
    for m in monos:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.dom is not None:
                if a.dom[0] is not None:
                    out.append(X.padd(X.patom(a), X.pconst(a.dom[0]), -1))
                if a.dom[1] is not None:
                    out.append(X.padd(X.pconst(a.dom[1]), X.patom(a), -1))
        elif m and all(a.dom is not None and a.dom[0] is not None and a.dom[0] >= 0 for a, _ in m):
            out.append(X.mkpoly({m: Q(1)}))
            if any(a.dom[0] for a, _ in m):             # the product of what they are above their least values
                p = X.ONE
                for a, e in m:
                    for _ in range(int(e)):
                        p = X.pmul(p, X.padd(X.patom(a), X.pconst(a.dom[0]), -1))
                out.append(p)
    return out


def relevant(p, facts):
    """the facts connected with p through shared monomials"""
    monos = {m for m, _ in p.t if m}
    left = list(dict.fromkeys(facts))
    out = []
    while True:
        new = [f for f in left if any(m in monos for m, _ in f.t if m)]
        if not new:
            return out, monos
        left = [f for f in left if f not in new]
        out += new
        for f in new:
            monos |= {m for m, _ in f.t if m}


def bound(p, facts, strict=(), every=False):
    """greatest provable c with p >= c, and whether the bound is strict; None when there is none"""
    if every:
        fs = list(facts) + list(strict)
        monos = {m for f in [p] + fs for m, _ in f.t if m}
    else:
        fs, monos = relevant(p, list(facts) + list(strict))
    ds, done = [], set()
    while monos - done:
        new = monos - done
        done |= new
        d = domains(new)
        ds += d
        monos |= {m for f in d for m, _ in f.t if m}
    fs = list(dict.fromkeys(fs + ds))
    strict = set(strict)
    rows = sorted(monos, key=lambda m: tuple((a.key, e) for a, e in m))
    g = dict(p.t)
    cf = [dict(f.t) for f in fs]
    A = [[c.get(m, Q(0)) for c in cf] for m in rows]
    b = [g.get(m, Q(0)) for m in rows]
    cost = [c.get((), Q(0)) for c in cf]        # minimise: p = sum l f + (g1 - sum l f1)
    r = simplex(A, b, cost)
    if r is None:
        return None
    lam, val = r
    return g.get((), Q(0)) - val, any(l > 0 and fs[i] in strict for i, l in lam.items())


def simplex(A, b, cost):
    """min cost.x, A x = b, x >= 0: ({index: value}, minimum); None if infeasible (or unbounded: contradiction, (.., -inf))"""
    m, n = len(A), len(cost)
    T = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        row = {j: s * v for j, v in enumerate(A[i]) if v}
        row[n + i] = Q(1)
        T.append([row, s * b[i]])
    basis = [n + i for i in range(m)]
    z = {}
    z0 = Q(0)
    for row, rb in T:                           # phase 1: sum of the artificial variables
        for j, v in row.items():
            if j < n:
                z[j] = z.get(j, Q(0)) - v
        z0 -= rb

    def pivot(i, j, objs):
        row, rb = T[i]
        pv = row[j]
        row = {k: v / pv for k, v in row.items()}
        rb = rb / pv
        T[i] = [row, rb]
        for k in range(m):
            if k != i:
                f = T[k][0].get(j)
                if f:
                    r2 = T[k][0]
                    for q, v in row.items():
                        x = r2.get(q, Q(0)) - f * v
                        if x:
                            r2[q] = x
                        else:
                            r2.pop(q, None)
                    T[k][1] -= f * rb
        for o in objs:
            f = o[0].get(j)
            if f:
                for q, v in row.items():
                    x = o[0].get(q, Q(0)) - f * v
                    if x:
                        o[0][q] = x
                    else:
                        o[0].pop(q, None)
                o[1] -= f * rb
        basis[i] = j

    def run(obj, allowed):
        for _ in range(2000):
            j = min((q for q, v in obj[0].items() if v < 0 and q < allowed), default=None)   # Bland
            if j is None:
                return True
            best = None
            for i in range(m):
                v = T[i][0].get(j)
                if v is not None and v > 0:
                    t = (T[i][1] / v, basis[i])
                    if best is None or t < best[0]:
                        best = (t, i)
            if best is None:
                return False
            pivot(best[1], j, [obj])
        return None
    o1 = [z, z0]
    if not run(o1, n) or o1[1] != 0:
        return None
    for i in range(m):                          # artificial variables out of the basis
        if basis[i] >= n:
            j = next((q for q, v in T[i][0].items() if q < n and v), None)
            if j is not None:
                pivot(i, j, [])
    o2 = [{j: v for j, v in enumerate(cost) if v}, Q(0)]
    for i in range(m):
        f = o2[0].get(basis[i])
        if f:
            for q, v in T[i][0].items():
                x = o2[0].get(q, Q(0)) - f * v
                if x:
                    o2[0][q] = x
                else:
                    o2[0].pop(q, None)
            o2[1] -= f * T[i][1]
    ok = run(o2, n)
    if ok is None:
        return None
    lam = {basis[i]: T[i][1] for i in range(m) if basis[i] < n}
    if ok is False:
        return lam, Q(-10 ** 30)                # the facts contradict each other
    return lam, -o2[1]


def ge0(p, facts, strict=()):
    """p >= 0"""
    if not p.t:
        return True
    D = 1
    import math
    for _, c in p.t:
        D = D * c.denominator // math.gcd(D, c.denominator)
    p = X.pscale(p, Q(D))
    G = 0
    for m, c in p.t:
        G = math.gcd(G, int(c))
    p = X.pscale(p, Q(1, G or 1))
    r = bound(p, facts, strict)
    if r is None:
        return False
    c, s = r
    if c >= 0:
        return True
    return X.isint_poly(p) and (c > -1 or c == -1 and s)
