"""Consequences of linear facts: proving that integer polynomials are non-negative, dropping tests the facts decide."""
import math
import time
from fractions import Fraction as Q
from . import expr as X
from .expr import L, TRUE, FALSE, UNDEF, BOT, AND, NOT, num, at, cmp, lower


def derive(f):
    """f >= 0 and what it implies through c*(p/c) <= p for quotients of non-negative values"""
    out = [f]
    for m, k in f.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "sdiv" and k > 0:
            _, p, c = m[0][0].args
            c, lo = c.const(), X.lower(p)
            if c is not None and c > 0 and lo is not None and lo >= 0:
                g = X.padd(f, X.pscale(X.patom(m[0][0]), -k))
                out += derive(X.padd(X.pscale(g, c), X.pscale(p, k)))
            elif c is None and lo is not None and lo >= 0:
                d = m[0][0].args[2]
                l = X.lower(d)
                if l is not None and l >= 1:
                    g = X.padd(f, X.pscale(X.patom(m[0][0]), -k))
                    out += derive(X.padd(X.pmul(g, d), X.pscale(p, k)))
    return out


def quotients(p):
    """(P - c + 1)/c <= sdiv(P, c) <= P/c for the quotients in p"""
    out = []
    for m, _ in p.t:
        for a, e in m:
            if a.kind == "fn" and a.args[0] == "sdiv":
                _, P, c = a.args
                c, lo = c.const(), X.lower(P)
                if c is not None and c > 0 and lo is not None and lo >= 0:
                    d = X.padd(X.pscale(P, 1 / c), X.patom(a), -1)
                    out += [d, X.padd(X.pconst((c - 1) / c), d, -1)]
    return out


def prove_ge0(p, facts, depth=2, tol=None):
    """p >= 0 follows from the domains and at most `depth` of the facts (polynomials known to be >= 0)"""
    if tol is None:     # an integer above -1 is not negative
        tol = -1 if X.isint_poly(p) else 0
        facts = quotients(p) + list(facts)
    lo = lower(p)
    if lo is not None and (lo >= 0 or lo > tol):
        return True
    if depth == 0:
        return False
    neg = {m: c for m, c in p.t if m and c < 0}
    low = {m: c for m, c in p.t if m and c > 0}
    for f in facts:
        for m, c in f.t:
            if m in neg and c < 0 or m in low and c > 0:
                r = X.padd(p, X.pscale(f, (neg[m] if c < 0 else low[m]) / c), -1)
                if prove_ge0(r, facts, depth - 1, tol):
                    return True
    # products: a negative monomial k*s bounded through the fact (n - k >= 0)*s
    for m, c in neg.items():
        for a, e in m:
            if e != 1:
                continue
            rest = tuple((b, f) for b, f in m if b is not a)
            if not rest or not all(b.dom is not None and b.dom[0] is not None and b.dom[0] >= 0 and f > 0 for b, f in rest):
                continue
            for f in facts:
                for fm, fc in f.t:
                    if len(fm) == 1 and fm[0][0] is a and fm[0][1] == 1 and fc < 0:
                        r = X.padd(p, X.pscale(X.pmul(f, X.mkpoly({rest: Q(1)})), c / fc), -1)
                        if prove_ge0(r, facts, depth - 1, tol):
                            return True
    return False


class Pruner:
    """drops tests that the facts already decide"""

    def __init__(self, facts):
        self.facts = [g for f in facts if f is not None for g in derive(f)]
        self.memo = {}

    def node(self, n):
        if n.q is None or not self.facts:
            return n
        r = self.memo.get(n.key)
        if r is not None:
            return r
        D = 1
        for _, cf in n.q.t:
            D = D * cf.denominator // math.gcd(D, cf.denominator)
        q = X.pscale(n.q, Q(D))
        isint = X.isint_poly(q)
        keep = []
        for i, k in enumerate(n.kids):
            lo = n.cuts[i - 1] if i else None
            hi = n.cuts[i] if i < len(n.cuts) else None
            dead = False
            if hi is not None:           # reached only when q < hi (or q <= hi): dead if q >= hi is known
                v, s = hi[0] * D, hi[1]
                need = v if s == 0 else (v + 1 if isint else None)
                if need is not None and prove_ge0(X.padd(q, X.pconst(need), -1), self.facts):
                    dead = True
            if not dead and lo is not None:   # reached only when q >= lo (or q > lo)
                v, s = lo[0] * D, lo[1]
                # q < lo known:  lo - q - 1 >= 0 (ints) ; for reals not provable from >= facts
                if isint:
                    w = X.padd(X.pconst(v - 1 if s == 0 else v), q, -1)
                    if prove_ge0(w, self.facts):
                        dead = True
                elif s == 1 and prove_ge0(X.padd(X.pconst(v), q, -1), self.facts):
                    dead = True
            if not dead:
                keep.append(i)
        kids = [self.node(n.kids[i]) for i in keep]
        if not keep:
            r = UNDEF
        elif len(keep) == 1:
            r = kids[0]
        else:
            cuts = tuple(n.cuts[i - 1] for i in keep[1:])
            r = X.mknode(n.q, cuts, kids)
        self.memo[n.key] = r
        return r


def implied(n, memo=None):
    """polynomials known to be >= 0 wherever the condition n holds"""
    if n.q is None:
        return []
    if memo is None:
        memo = {}
    r = memo.get(n.key)
    if r is not None:
        return r
    live = [i for i, k in enumerate(n.kids) if k is not FALSE and not (k.q is None and k.leaf is BOT)]
    r = []
    if live:
        a, b = live[0], live[-1]
        D = 1
        for _, cf in n.q.t:
            D = D * cf.denominator // math.gcd(D, cf.denominator)
        q = X.pscale(n.q, Q(D))
        isint = X.isint_poly(q)
        if a > 0:
            v, s_ = n.cuts[a - 1]
            r.append(X.padd(q, X.pconst(v * D + (1 if s_ and isint else 0)), -1))
        if b < len(n.cuts):
            v, s_ = n.cuts[b]
            r.append(X.padd(X.pconst(v * D - (1 if isint and s_ == 0 else 0)), q, -1))
        if len(live) == 1:
            r = r + implied(n.kids[a], memo)
        else:
            sets = [implied(n.kids[i], memo) for i in live]
            r = r + [p for p in sets[0] if all(p in t for t in sets[1:])]
    memo[n.key] = r
    return r


def pinned(c, k):
    """the constant the iteration variable k must have for c to hold, or None"""
    cuts = set()
    seen = set()
    st = [c]
    q = X.patom(k)
    while st:
        n = st.pop()
        if n.q is None or n.key in seen:
            continue
        seen.add(n.key)
        if n.q == q:
            cuts |= {v for v, _ in n.cuts}
        st += n.kids
    for v in sorted(cuts | {v - 1 for v in cuts}):
        if v >= 0 and v.denominator == 1 and AND(c, NOT(cmp("eq", at(k), num(v), True))) is FALSE:
            return v
    return None




_tested = {}


def tested(x):
    """is there a test anywhere inside x"""
    if isinstance(x, tuple):
        return any(tested(y) for y in x)
    if not isinstance(x, (X.Atom, X.Poly, X.Node)):
        return False
    k = (type(x).__name__, x.key)
    r = _tested.get(k)
    if r is None:
        if isinstance(x, X.Atom):
            r = any(tested(y) for y in x.args)
        elif isinstance(x, X.Poly):
            r = any(tested(a) for a in x.atoms())
        else:
            r = x.q is not None or (x.leaf is not BOT and tested(x.leaf))
        _tested[k] = r
    return r


class Deep:
    """drops tests that are decided where they stand: by the tests around them and the ranges of the bound variables"""

    def __init__(self, limit=60000, edges=False, seconds=25):
        self.memo = {}
        self.deadline = time.monotonic() + seconds
        self.left = limit
        self.edges = edges

    def facts_of(self, n, i):
        D = 1
        for _, cf in n.q.t:
            D = D * cf.denominator // math.gcd(D, cf.denominator)
        q = X.pscale(n.q, Q(D))
        isint = X.isint_poly(q)
        out = []
        if i:
            v, s = n.cuts[i - 1]
            out.append(X.padd(q, X.pconst(v * D + (1 if s and isint else 0)), -1))
        if i < len(n.cuts):
            v, s = n.cuts[i]
            out.append(X.padd(X.pconst(v * D - (1 if isint and s == 0 else 0)), q, -1))
        return out

    def relevant(self, n, facts):
        ats = X.atoms_of(n)
        return tuple(f for f in facts if any(a.key in ats for a in f.atoms()))

    def node(self, n, facts=()):
        if n is UNDEF or n is BOT:
            return n
        key = (n.key, tuple(f.key for f in facts))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.left -= 1
        if self.left < 0 or time.monotonic() > self.deadline:
            raise X.TooBig("deep pruning")
        if n.q is None:
            r = n if n.leaf is BOT else self.poly(n.leaf, facts)
        else:
            p = Pruner(facts)
            kept = []
            for i, k in enumerate(n.kids):
                fs = self.facts_of(n, i)
                if any(prove_ge0(X.padd(X.pneg(f), X.ONE, -1) if X.isint_poly(f) else X.pneg(f), p.facts) and X.isint_poly(f) for f in fs):
                    continue
                kept.append((i, self.node(k, tuple(facts) + tuple(fs))))
            if not kept:
                r = UNDEF
            else:
                q = self.poly(n.q, facts)
                if q.q is None and q.leaf == n.q:
                    if len(kept) == 1:
                        r = kept[0][1]
                    else:
                        cuts = tuple(n.cuts[i - 1] for i, _ in kept[1:])
                        kids = [k for _, k in kept]
                        if self.edges:
                            cuts, kids = self.moved(n.q, cuts, kids, facts)
                        r = self.absorbed(n, kept, facts) or X._rebuild(n.q, cuts, kids)
                else:       # the tested quantity itself changed
                    r = kept[-1][1]
                    for (i, k) in reversed(kept[:-1]):
                        v, s = n.cuts[i]
                        r = X.ite(X.cmp("lt" if s == 0 else "le", q, num(v), False), k, r)
        self.memo[key] = r
        return r

    def moved(self, q, cuts, kids, facts):
        """an integer test whose outcomes agree at a switch: the switch is put behind the last such value"""
        if not X.isint_poly(q) or any(s for _, s in cuts):
            return cuts, kids
        best = None
        for m, c in q.t:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].isint and m[0][0].kind not in ("fn", "sum"):
                if best is None or m[0][0].key < best[0].key:
                    best = (m[0][0], c)
        if best is None:
            return cuts, kids
        a, c = best
        cuts, kids = [v for v, _ in cuts], list(kids)
        i = 0
        moves = 0
        while i < len(cuts):
            v = cuts[i]
            val = X.pscale(X.padd(X.padd(q, X.pscale(X.patom(a), c), -1), X.pconst(v), -1), -c)
            if moves > 3 or X.mentions(val, a):
                break
            m = {a: L(val)}
            fs = tuple(f.leaf for f in (X.subst(L(f), m) for f in facts) if f.q is None)
            x, y = X.subst(kids[i], m), X.subst(kids[i + 1], m)
            if x is not y and self.node(x, self.relevant(x, fs)) is not self.node(y, self.relevant(y, fs)):
                i += 1
                continue
            moves += 1
            cuts[i] = v + 1
            if i + 1 < len(cuts) and cuts[i + 1] <= v + 1:
                del cuts[i], kids[i + 1]
        return tuple((v, 0) for v in cuts), kids

    def absorbed(self, n, kept, facts):
        """one outcome that the other one also yields where the first is taken"""
        if len(kept) != 2:
            return None
        for (i, a), (_, b) in (kept, kept[::-1]):
            if b.q is not None and self.node(b, tuple(facts) + tuple(self.facts_of(n, i))) is a:
                return b
        return None

    def poly(self, p, facts):
        r = FALSE
        same = True
        terms = []
        for m, c in p.t:
            t = [(a, e, self.atom(a, facts)) for a, e in m]
            if any(v is not None for _, _, v in t):
                same = False
            terms.append((c, t))
        if same:
            return L(p)
        for c, t in terms:
            x = num(c)
            for a, e, v in t:
                if v is None:
                    x = X.mul(x, L(X.patom(a, e)))
                else:
                    for _ in range(abs(e)):
                        x = X.mul(x, v) if e > 0 else X.div(x, v)
            r = X.add(r, x)
        return r

    def atom(self, a, facts):
        """None: unchanged"""
        if not tested(a):
            return None
        if not any(isinstance(x, (X.Node, X.Poly, tuple)) for x in a.args) or a.kind in ("loop", "k", "tc", "mu", "heap", "alloca"):
            return None
        if a.kind == "lam":
            q, fs, body = a.args
            t = X.tmpvar(fs, body, facts)
            fs = tuple(X.rename(L(f), q, t).leaf for f in fs)
            b0 = X.rename(body, q, t)
            b = self.node(b0, self.relevant(b0, tuple(facts) + fs))
            return None if b is b0 else X.mklam(t, list(fs), b)
        if a.kind == "sum":
            u, q, body = a.args
            if u.q is not None:
                return None
            u2 = self.node(u, facts)
            t = X.tmpvar(body, facts)
            b0 = X.rename(body, q, t)
            fs = tuple(derive(X.padd(X.padd(u.leaf, X.patom(t), -1), X.ONE, -1)))
            b = self.node(b0, self.relevant(b0, tuple(facts) + fs))
            return None if b is b0 and u2 is u else X.mksum(u2, t, b, a.isint)
        if a.kind in ("r2c", "c2r"):
            ps = [x for x in a.args if isinstance(x, X.Poly)]
            ns = [self.poly(x, self.relevant(x, facts)) for x in ps]
            if all(n.q is None and n.leaf == x for n, x in zip(ns, ps)):
                return None
            return X.apply(lambda *ls: X.rebuilt(a, ls), *ns)
        args = []
        ch = False
        for x in a.args:
            y = x
            if isinstance(x, X.Node):
                y = self.node(x, self.relevant(x, facts))
            elif isinstance(x, X.Poly):
                z = self.poly(x, facts)
                if z.q is not None:
                    return None
                y = z.leaf
            ch |= y is not x and not (isinstance(x, X.Poly) and y == x)
            args.append(y)
        if not ch:
            return None
        if a.kind == "fn":
            return X.fn(args[0], *[L(x) if isinstance(x, X.Poly) else x for x in args[1:]])
        if any(isinstance(x, X.Node) and x.q is not None for x in args):
            ns = [x for x in args if isinstance(x, X.Node)]
            return None if len(ns) > 4 else at(X.atom(a.kind, *args, isint=a.isint, dom=a.dom))
        return at(X.atom(a.kind, *args, isint=a.isint, dom=a.dom))
