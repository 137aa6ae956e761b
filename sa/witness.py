"""Where two decision diagrams differ: a path with an assignment of small values to the quantities it tests, or none."""
from fractions import Fraction as Q
from . import gsa, expr as X
from .expr import BOT

CALC = ("srem", "sdiv", "bool", "trunc32")


class Undecided(Exception):
    pass


def variables(p, out):
    for a in p.atoms():
        if a.kind == "fn" and a.args[0] in CALC:
            for x in a.args[1:]:
                if isinstance(x, X.Poly):
                    variables(x, out)
        else:
            out.add(a)
    return out


def atomvalue(a, env):
    v = env.get(a)
    if v is not None:
        return v
    if a.kind == "fn" and a.args[0] in CALC:
        xs = [value(x, env) for x in a.args[1:]]
        if a.args[0] in ("sdiv", "srem"):
            if xs[1] == 0:
                return Q(0)
            q = Q(int(xs[0] / xs[1]))
            return q if a.args[0] == "sdiv" else xs[0] - q * xs[1]
        return xs[0]
    h = int(a.key[:6], 16) if isinstance(a.key, str) else hash(a) & 0xffffff
    v = env[a] = Q(1000 + h % 100003)
    return v


def value(p, env):
    r = Q(0)
    for m, c in p.t:
        for a, e in m:
            v = atomvalue(a, env)
            c = c * (v ** e if e > 0 or v != 0 else 0)
        r += c
    return r


def holds(con, env):
    q, lo, hi = con
    v = value(q, env)
    if lo is not None and not (v >= lo[0] if lo[1] == 0 else v > lo[0]):
        return False
    if hi is not None and not (v < hi[0] if hi[1] == 0 else v <= hi[0]):
        return False
    return True


class Search:
    def __init__(self, known, budget=4000):
        self.known = known
        self.budget = budget
        self.unknown = 0

    def solve(self, cons, base=None):
        """an assignment meeting the constraints, or None"""
        vs = {}
        for c in cons:
            w = frozenset(variables(c[0], set()))
            vs[id(c)] = w
        allv = set().union(*vs.values()) if vs else set()
        dom = {}
        for v in allv:
            own = [c for c in cons if vs[id(c)] == {v}]
            cand = set(range(0, 8)) if v.isint else {Q(0), Q(1), Q(1, 2), Q(3), Q(-1)}
            for c in cons:
                if v in vs[id(c)]:
                    for e in (c[1], c[2]):
                        if e is not None:
                            cand |= {e[0], e[0] - 1, e[0] + 1}
            if v.dom is not None:
                lo, hi = v.dom
                cand = {x for x in cand if (lo is None or x >= lo) and (hi is None or x <= hi)}
            dom[v] = sorted(Q(x) for x in cand if all(holds(c, {v: Q(x)}) for c in own))
            if not dom[v]:
                return None
        multi = [c for c in cons if len(vs[id(c)]) > 1]
        order = []
        left = set(allv)
        for c in sorted(multi, key=lambda c: len(vs[id(c)])):
            for v in sorted(vs[id(c)], key=lambda v: len(dom[v])):
                if v in left:
                    order.append(v)
                    left.discard(v)
        env = {v: dom[v][0] for v in left}
        steps = [0]
        ready = {}
        for c in multi:
            ready.setdefault(max(order.index(v) for v in vs[id(c)]), []).append(c)

        def go(k):
            if k == len(order):
                return True
            v = order[k]
            for x in dom[v]:
                steps[0] += 1
                if steps[0] > 20000:
                    raise Undecided()
                env[v] = x
                if all(holds(c, dict(env)) for c in ready.get(k, ())) and go(k + 1):
                    return True
            env.pop(v, None)
            return False
        return dict(env) if go(0) else None

    def find(self, a, b, path=()):
        """(path, assignment, leaf of a, leaf of b) where they differ"""
        if a is b:
            return None
        self.budget -= 1
        if self.budget < 0:
            raise Undecided()
        if a.q is None and b.q is None:
            xs = set()
            for p in [c[0] for c in path] + [x for x in (a.leaf, b.leaf) if x is not BOT]:
                variables(p, xs)
            if not all(self.known(x) for x in xs):
                self.unknown += 1
                return None
            env = self.solve(list(path))
            if env is None:
                return None
            if (a.leaf is BOT) != (b.leaf is BOT):
                return path, env, a.leaf, b.leaf
            if not self.congruent(xs, env):
                self.unknown += 1
                return None
            x, y = value(a.leaf, env), value(b.leaf, env)
            if x == y:      # other values of the quantities, if any
                env = self.apart(path, a.leaf, b.leaf, xs)
                if env is None:
                    return None
            return path, env, a.leaf, b.leaf
        q = None
        for n in (a, b):
            if n.q is not None and (q is None or n.q.key < q.key):
                q = n.q
        cuts = ()
        for n in (a, b):
            if n.q is q:
                cuts = X.merge_cuts(cuts, n.cuts)
        for j, lo in enumerate((None,) + cuts):
            hi = cuts[j] if j < len(cuts) else None
            x, y = X.pick(a, q, lo), X.pick(b, q, lo)
            if x is y:
                continue
            p2 = path + ((q, lo, hi),)
            if self.solve(self.linked(p2)) is None:
                continue
            r = self.find(x, y, p2)
            if r is not None:
                return r
        return None

    def apart(self, path, p, q, xs):
        """an assignment on the path with different values of the two, or None"""
        env = self.solve(list(path)) or {}
        bound = set().union(*[variables(c[0], set()) for c in path]) if path else set()
        env = {v: x for v, x in env.items() if v in bound}
        if not self.congruent(xs, env):
            self.unknown += 1
            return None
        if value(p, env) != value(q, env):
            return env
        for far in ((X.padd(p, q, -1), (Q(0), 1), None), (X.padd(p, q, -1), None, (Q(0), 0))):
            env = self.solve(list(path) + [far])
            if env is not None and self.congruent(xs, env) and value(p, env) != value(q, env):
                return env
        return None

    def congruent(self, xs, env):
        """elements at the same place get the same value; false if they have different ones"""
        at = {}
        lds = [a for a in xs if a.kind == "ld"]
        for a in lds:
            variables(a.args[0], xs)
        for a in sorted(lds, key=lambda a: a not in env):
            k = (a.args[1:], value(a.args[0], env))
            v = env.get(a)
            if v is None:
                v = env[a] = at.get(k, atomvalue(a, env))
            if at.setdefault(k, v) != v:
                return False
        return True

    def linked(self, path):
        """the constraints that share quantities with the last one"""
        vs = set(variables(path[-1][0], set()))
        left = list(path[:-1])
        out = [path[-1]]
        grew = True
        while grew:
            grew = False
            for c in left:
                w = variables(c[0], set())
                if w & vs:
                    vs |= w
                    out.append(c)
                    left.remove(c)
                    grew = True
                    break
        return out


def compare(a, b, known, budget=4000):
    """"same", "bounded" (no difference on small values), "unknown", or the difference as (path, assignment, leaf, leaf)"""
    if a is b:
        return "same"
    s = Search(known, budget)
    try:
        r = s.find(a, b)
    except (Undecided, RecursionError):
        return "unknown"
    if r is not None:
        return r
    return "unknown" if s.unknown else "bounded"


def show(r):
    path, env, x, y = r
    vals = ", ".join(f"{X.show_atom(v)} = {env[v]}" for v in sorted(env, key=lambda v: X.show_atom(v)) if v.kind == "sym")
    f = lambda p: "undefined" if p is BOT else X.show_poly(p)[:300]
    return f"at {vals[:700]}: computed {f(x)} | specified {f(y)}"
