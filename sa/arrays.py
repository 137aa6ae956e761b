"""Array value numbering.

Interprets the ordered effects of a summary (made with arrays=True) as transformations of abstract arrays.  The content of
an array is a chain of layers (write, accumulation, loop of layers); reading it at a symbolic index gives a canonical value:
for affine element loops the index is solved for, data-dependent accumulation becomes a sum over the loop of
"value if this element is the one addressed".  Two pieces of code that leave the same numbers in an array give the same node,
however the work is split over loops, temporaries and helpers.  Nothing is executed."""
import math
from fractions import Fraction as Q
from . import expr as X, gsa
from .expr import lower, L, TRUE, FALSE, UNDEF, BOT, AND, OR, NOT, ite, add, sub, mul, num, at, atom, cmp

from .facts import prove_ge0, Pruner, implied, pinned, derive

SIZES = {"double": 8, "float": 4, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "ptr": 8, "i1": 1, "i128": 16}


class Unresolved(Exception):
    pass


# ---- solving affine indices ---------------------------------------------------------------------

def _order(m):
    return (sum(e for _, e in m), tuple(sorted((a.key, e) for a, e in m)))


def polydiv(d, s):
    """d = q*s + rest by leading-term division; s non-zero"""
    lead = max((m for m, _ in s.t), key=_order)
    lc = dict(s.t)[lead]
    q = X.ZERO
    rest = d
    for _ in range(60):
        hit = None
        for m, c in rest.t:
            mm = dict(m)
            ok = True
            for a, e in lead:
                if mm.get(a, 0) < e:
                    ok = False
                    break
            if ok:
                hit = (m, c)
                break
        if hit is None:
            return q, rest
        m, c = hit
        mm = dict(m)
        for a, e in lead:
            mm[a] -= e
        t = X.mkpoly({tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda x: x[0].key)): c / lc})
        q = X.padd(q, t)
        rest = X.padd(rest, X.pmul(t, s), -1)
    return None, d


def split_affine(p, ks):
    """p = sum stride_k * k + rest, strides and rest free of ks; None when not affine in ks"""
    st = {k: {} for k in ks}
    rest = {}
    for m, c in p.t:
        hit = None
        for a, e in m:
            if a in st:
                if hit is not None or e != 1:
                    return None
                hit = a
            else:
                if any(X.mentions(a, k) for k in ks):
                    return None
        if hit is None:
            rest[m] = c
        else:
            st[hit][tuple((a, e) for a, e in m if a is not hit)] = c
    return {k: X.mkpoly(v) for k, v in st.items()}, X.mkpoly(rest)


def intpoly(p):
    return all(c.denominator == 1 for _, c in p.t) and X.isint_poly(p)


def stride_rank(s):
    lead = max((m for m, _ in s.t), key=_order)
    return _order(lead), abs(dict(s.t)[lead])


NOMATCH = "nomatch"


def solve(off, x, ks):
    """index values for which off(ks) == x: {k: poly}; NOMATCH; None when it cannot be solved.  ks that do not occur
    are left out."""
    sa = split_affine(off, ks)
    if sa is None:
        return None
    st, rest = sa
    occ = [k for k in ks if st[k].t]
    d = X.padd(x, rest, -1)
    order = sorted(occ, key=lambda k: _order(max((m for m, _ in st[k].t), key=_order)) and
                   (_order(max((m for m, _ in st[k].t), key=_order))[0], abs(st[k].t[0][1]) if st[k].const() is not None else 0),
                   reverse=True)
    sol = {}
    for k in order:
        s = st[k]
        if s.const() is not None:
            q = {}
            r = {}
            c0 = s.const()
            for m, c in d.t:
                v = c / c0
                if v.denominator == 1:
                    q[m] = v
                else:
                    r[m] = c
            sol[k] = X.mkpoly(q)
            d = X.mkpoly(r)
            if d.t and k is not order[-1] and d.const() is None:
                return None
        else:
            q, r = polydiv(d, s)
            if q is None or not intpoly(q):
                return None
            sol[k] = q
            d = r
    if d.t:
        c = d.const()
        if c is not None:
            return NOMATCH
        return None
    if not all(intpoly(v) for v in sol.values()):
        return None
    return sol


# ---- chains -------------------------------------------------------------------------------------

class LoopInfo:
    __slots__ = ("kat", "tc", "uid", "body", "depth", "done", "la")


class W:
    """one write (st) or accumulation (acc)"""
    __slots__ = ("kind", "off", "val", "cond", "size", "older", "eng", "eff", "loops", "_r", "ty")

    def get(self):
        if self._r is None:
            f = self.eng.final
            v = f.node(self.val)
            c = f.node(self.cond)
            pr = self.eng.pruner(self.loops)
            self._r = (pr.node(v), pr.node(c))
        return self._r


class LP:
    """a completed loop of layers over an older content"""
    __slots__ = ("info", "inner", "older")


class IT:
    """content at the start of an iteration"""
    __slots__ = ("info", "older", "base")


class INIT:
    __slots__ = ("base", "kind")


class Resolver(X.Subst):
    def __init__(self, eng):
        X.Subst.__init__(self, {}, load=eng.load)

    def touches_atom(self, a):
        r = self._touch.get(a.key)
        if r is None:
            if a.kind == "ld" and a.args[2][:1] == ("v",):
                r = True
            elif a.kind in ("k", "loop"):
                r = False
            else:
                self._touch[a.key] = False
                r = any(self.touches(x) for x in a.args)
            self._touch[a.key] = r
        return r


class Env(X.Subst):
    """substitution of iteration variables; the other ones keep their identity even where their loop depends on these"""

    def touches_atom(self, a):
        r = self._touch.get(a.key)
        if r is None and a.kind == "k" and a.key not in self.m:
            r = self._touch[a.key] = False
        return X.Subst.touches_atom(self, a) if r is None else r


class _Trip:
    trip, trip_step, trip_by = gsa.Summary.trip, gsa.Summary.trip_step, gsa.Summary.trip_by


TRIP = _Trip()


class Engine:
    """effects: ordered effects; init(base atom) -> "zero" | "uninit" | "param"
    model(engine, effect, state) -> True when it handled a call effect"""

    def __init__(self, effects, init=None, model=None, facts=()):
        self.eff = effects
        self.initf = init or (lambda b: "param")
        self.model = model
        self.facts = list(facts)
        self.snap = {}
        self.infos = {}
        self.busy = set()
        self.calls = []
        self.pr = {}
        self.ctx = []
        self.addr = Resolver(self)
        self.final = self.addr
        self.phase = 1
        self.chains0 = {}
        self.state = self.run(0, len(effects), (), {}, ())
        self.phase = 2
        self.final = Resolver(self)

    def pruner(self, loops):
        p = self.pr.get(loops)
        if p is None:
            fs = list(self.facts)
            for i in loops:
                if i.tc.q is None:
                    fs.append(X.padd(X.padd(i.tc.leaf, X.patom(i.kat), -1), X.ONE, -1))
            p = self.pr[loops] = Pruner(fs)
        return p

    # -- walking -----------------------------------------------------------------------------
    def run(self, lo, hi, uids, state, loops):
        depth = len(uids)
        i = lo
        while i < hi:
            e = self.eff[i]
            self.snap[(e.seq, uids)] = (state, loops)
            if len(e.uids) > depth:
                u = e.uids[depth]
                j = i
                while j < hi and len(self.eff[j].uids) > depth and self.eff[j].uids[depth] == u:
                    j += 1
                state = self.loop(i, j, uids + (u,), state, loops)
                i = j
            else:
                state = self.apply(e, state, loops)
                i += 1
        last = self.eff[hi - 1].seq + 1 if hi > lo else 0
        self.snap[(last, uids)] = (state, loops)
        return state

    def loop(self, lo, hi, uids, state, loops):
        e = self.eff[lo]
        d = len(uids) - 1
        info = LoopInfo()
        info.uid = uids[-1]
        info.la = e.loops[d]
        info.kat = atom("k", e.loops[d], isint=True, dom=(0, None))
        info.tc = self.addr.node(e.tcs[d])
        info.depth = d
        info.done = False
        self.infos[info.uid] = info
        inside = State(state, info)
        out = self.run(lo, hi, uids, inside, loops + (info,))
        info.done = True
        info.body = {}
        res = state
        for b, c in out.items_changed(inside):
            info.body[b] = c
        self.retrip(info)
        for b, c in out.items_changed(inside):
            lp = LP()
            lp.info, lp.inner = info, c
            lp.older = chain(self, state, b)
            res = setchain(res, b, lp)
        return res

    def retrip(self, info):
        """trip count of a loop whose bound is read from memory in its test"""
        t = info.tc
        if t.q is not None or len(t.leaf.t) != 1 or len(t.leaf.t[0][0]) != 1 or t.leaf.t[0][0][0][0].kind != "tc":
            return
        head = [c for n, c in info.la.args[1] if n == 0]
        if len(head) != 1:
            return
        me = atom("self", info.la.args[0], isint=True, dom=(0, None))
        r = TRIP.trip(X.strip_bot(self.addr.node(head[0])), me)
        if r is not None and me.key not in X.atoms_of(r):
            info.tc = r
            self.pr = {k: v for k, v in self.pr.items() if info not in k}

    def apply(self, e, state, loops):
        if e.kind in ("store", "acc"):
            a = self.addr.node(e.addr)
            leafs = {}
            collect(a, TRUE, leafs)
            for p, c in leafs.items():
                if p is BOT:
                    continue
                b, off = gsa.base_of(p)
                if b is None:
                    raise Unresolved(f"address without object: {X.show_poly(p)[:200]}")
                state = self.write(state, loops, b, off, e.kind, e.val, e.cond if c is TRUE else AND(e.cond, c), e.size, e)
            return state
        if e.kind in ("memset", "memcpy"):
            n = e.args[-1]
            n = n.leaf.const() if n.q is None else None
            if n is not None and n % 8 == 0 and n <= 512:
                a = self.addr.node(e.addr)
                if a.q is None:
                    b, off = gsa.base_of(a.leaf)
                    if b is not None:
                        for o in range(0, int(n), 8):
                            if e.kind == "memset":
                                v = e.val if e.val is FALSE else at(atom("filled", o))
                            else:
                                tag = ("v", e.seq, e.uids, tuple(i.kat for i in loops))
                                v = X.apply(lambda p: at(atom("ld", X.padd(p, X.pconst(o)), "i64", tag, isint=True)), e.args[0])
                            state = self.write(state, loops, b, X.padd(off, X.pconst(o)), "st", v, e.cond, "i64", e)
                        return state
            raise Unresolved(f"{e.kind} of unknown extent")
        if self.model is not None:
            r = self.model(self, e, state, loops)
            if r is not None:
                return r
        self.calls.append((e, loops))
        return state

    def write(self, state, loops, b, off, kind, val, cond, ty, e):
        w = W()
        w.kind, w.off, w.val, w.cond, w.size, w.eff, w.loops, w.ty = kind, off, val, cond, SIZES.get(ty, 8), e, loops, ty
        w.eng, w._r = self, None
        w.older = chain(self, state, b)
        return setchain(state, b, w)

    # -- reading -----------------------------------------------------------------------------
    def load(self, args):
        p, ty, tag = args
        if tag[:1] != ("v",):
            return None
        _, seq, uids, ks = tag
        u = uids
        while (seq, u) not in self.snap:
            if not u:
                raise Unresolved(f"no state at {seq} {uids}")
            u = u[:-1]
        state, loops = self.snap[(seq, u)]
        env = {}
        for i, info in enumerate(loops):
            v = ks[i]
            v = at(v) if isinstance(v, X.Atom) else v
            if v.q is None and v.leaf == X.patom(info.kat):
                continue
            env[info.kat] = v
        old = self.ctx
        self.ctx = []
        for i in loops:
            f = self.trysub(env, X.padd(X.padd(i.tc.leaf, X.patom(i.kat), -1), X.ONE, -1)) if i.tc.q is None else None
            if f is not None:
                self.ctx += derive(f)
        try:
            return self.read_at(state, p, ty, env)
        finally:
            self.ctx = old

    def read_at(self, state, p, ty, env):
        b, off = gsa.base_of(p)
        if b is None:
            raise Unresolved(f"load without object: {X.show_poly(p)[:200]}")
        # the object itself may be named through outer iteration variables
        return self.read(chain(self, state, b), off, ty, env)

    def sub(self, env, n):
        return Env(env).node(n) if env else n

    def psub(self, env, p):
        if not env:
            return p
        n = Env(env).poly(p)
        if n.q is not None:
            raise Unresolved("index became conditional")
        return n.leaf

    def match(self, w, x, env):
        off = self.psub(env, w.off)
        d = X.padd(x, off, -1)
        c = d.const()
        if c is not None:
            return TRUE if c == 0 else FALSE
        d = X.pscale(d, Q(1, w.size))
        if not all(k.denominator == 1 for m, k in d.t if m):
            return cmp("eq", L(d), FALSE, True)
        k0 = dict(d.t).get((), Q(0))
        if k0.denominator != 1:
            return FALSE
        return cmp("eq", L(d), FALSE, True)

    def read(self, c, x, ty, env, bottom=None):
        """content at byte offset x; bottom: value function for the iteration start"""
        if isinstance(c, INIT):
            if bottom is not None:
                return bottom()
            k = c.kind
            if k == "zero":
                return FALSE
            if k == "uninit":
                return at(atom("uninit", ty, isint=ty in ("i64", "ptr")))
            a = atom("ld", X.padd(X.patom(c.base), x), ty, (), isint=ty not in ("double", "float"))
            if ty == "ptr":
                gsa.mark_ptr(a)
            return at(a)
        if isinstance(c, W):
            m = self.match(c, x, env)
            older = lambda: self.read(c.older, x, ty, env, bottom)
            if m is FALSE:
                return older()
            v, cd = c.get() if self.phase == 2 else (self.addr.node(c.val), self.addr.node(c.cond))
            m = AND(m, self.sub(env, cd))
            if m is FALSE:
                return older()
            v = self.sub(env, v)
            if c.kind == "st" or c.kind == "store":
                v = retype(v, ty)
                if m is TRUE:
                    return v
                return ite(m, v, older())
            return add(ite(m, v, FALSE), older())
        if isinstance(c, IT):
            if bottom is not None:
                return bottom()
            return self.read_iter(c, x, ty, env)
        return self.read_loop(c, x, ty, env, bottom)

    def layers(self, c, quants=()):
        """all writes below c down to its iteration start: [(W, quantified atoms)]"""
        out = []
        while True:
            if isinstance(c, W):
                out.append((c, quants))
                c = c.older
            elif isinstance(c, LP):
                out += self.layers(c.inner, quants + (c.info.kat,))
                c = c.older
            else:
                return out

    def kcur(self, info, env):
        return env.get(info.kat, at(info.kat))

    def read_iter(self, c, x, ty, env):
        info = c.info
        if c.base.kind == "heap" and info.kat.key in X.atoms_of(at(c.base)):    # allocated in this iteration
            return self.read(initial(self, c.base), x, ty, env)
        outer = lambda: self.read(c.older, x, ty, {k: v for k, v in env.items() if k is not info.kat})
        if not info.done:
            return outer()
        body = info.body.get(c.base)
        if body is None:
            return outer()
        ls = self.layers(body)
        kc = self.kcur(info, env)
        key = (info.uid, c.base.key)
        sols = self.solutions(ls, x, env, info)
        real = [s for s in sols if s is not NOMATCH]
        if not real:
            return outer()
        if all(isinstance(s, X.Poly) for s in real):
            late = True
            for s in real:
                d = sub(L(s), kc)
                if not (d.q is None and prove_ge0(d.leaf, self.facts)):
                    late = False
            if late:
                return outer()
            if all(s == real[0] for s in real) and key not in self.busy:
                self.busy.add(key)
                try:
                    e2 = dict(env)
                    e2[info.kat] = L(real[0])
                    inner = self.read(body, x, ty, e2, outer)
                finally:
                    self.busy.discard(key)
                return ite(AND(cmp("ge", L(real[0]), FALSE, True), cmp("lt", L(real[0]), kc, True)), inner, outer())
        if all(w.kind == "acc" for w, _ in ls):
            t = atom("tmpr", info.depth, isint=True, dom=(0, None))
            e2 = dict(env)
            e2[info.kat] = at(t)
            return add(outer(), X.mksum(kc, t, self.read(body, x, ty, e2, lambda: FALSE)))
        return at(atom("carried", c.base.kind, x, kc, isint=ty in ("i64", "ptr")))

    def wfacts(self, w, qs, env):
        """what is known where write w happens"""
        c = self.addr.node(w.cond)
        fs = list(self.facts) + self.ctx
        for i in w.loops:
            if i.tc.q is None:
                fs += derive(X.padd(X.padd(i.tc.leaf, X.patom(i.kat), -1), X.ONE, -1))
        if env:
            fs = [p for p in (self.trysub(env, f) for f in fs) if p is not None]
            c = self.sub(env, c)
        return fs + implied(c)

    def wcases(self, w, qs, env):
        """wfacts, case by case where a trip count depends on a test"""
        cases = [[]]
        for i in w.loops:
            if i.tc.q is not None:
                lv = {}
                collect(i.tc, TRUE, lv)
                if len(lv) > 4 or len(cases) > 8:
                    return [self.wfacts(w, qs, env)]
                cases = [c + derive(X.padd(X.padd(p, X.patom(i.kat), -1), X.ONE, -1)) + implied(g) for c in cases
                         for p, g in lv.items() if p is not BOT]
        base = self.wfacts(w, qs, env)
        if env:
            cases = [[p for p in (self.trysub(env, f) for f in c) if p is not None] for c in cases]
        return [base + c for c in cases]

    def trysub(self, env, p):
        n = Env(env).poly(p)
        return n.leaf if n.q is None else None

    def within(self, r, s, facts):
        return prove_ge0(r, facts) and prove_ge0(X.padd(X.padd(s, r, -1), X.ONE, -1), facts)

    def solutions(self, ls, x, env, info):
        out = [self.solve_for(w, x, env, info, qs) for w, qs in ls]
        for n, (w, qs) in enumerate(ls):       # a solution is unique only if nothing else can make up the difference
            if isinstance(out[n], X.Poly) and qs and any(q in X.top_atoms(L(w.off)) for q in qs):
                out[n] = None
        if all(s is NOMATCH or isinstance(s, X.Poly) for s in out):
            return out
        # columns: offset = stride*k + rest with 0 <= rest < stride
        strides = {}
        for n, (w, qs) in enumerate(ls):
            if out[n] is not None:
                continue
            e2 = {k: v for k, v in env.items() if k is not info.kat and k not in qs}
            try:
                off = self.psub(e2, w.off)
            except Unresolved:
                continue
            out[n] = self.column(w, off, x, info.kat, qs, e2, strides)
        for n, (w, qs) in enumerate(ls):
            if out[n] is NOMATCH or isinstance(out[n], X.Poly):
                continue
            e2 = {k: v for k, v in env.items() if k is not info.kat and k not in qs}
            c = pinned(self.sub(e2, self.addr.node(w.cond)), info.kat)
            if c is None:
                continue
            for (st, xk), (q, r) in strides.items():
                if xk != x.key:
                    continue
                try:
                    off = self.psub(e2, w.off)
                except Unresolved:
                    break
                c0, rest = polydiv(off, st)
                if c0 is not None and c0.const() == c and self.within(rest, st, self.wfacts(w, qs, e2)):
                    out[n] = q
                    break
            else:
                out[n] = X.pconst(c)
        return out

    def column(self, w, off, x, kat, qs, e2, strides):
        """iteration of kat in which w addresses x, by mixed-radix decomposition of the offset"""
        ks = [kat] + [q for q in qs if q is not kat]
        st = {k: {} for k in ks}
        for m, c in off.t:
            hit = [(a, e) for a, e in m if a in st]
            if not hit:
                continue
            if len(hit) > 1 or hit[0][1] != 1:
                return None
            st[hit[0][0]][tuple((a, e) for a, e in m if a is not hit[0][0])] = c
        st = {k: X.mkpoly(v) for k, v in st.items() if v}
        if kat not in st:
            return None
        off0, x0 = off, x
        for first in (False, True):
            r = self.radix(w, off0, x0, kat, qs, e2, strides, st, first)
            if r is not None:
                return r
        return None

    def radix(self, w, off, x, kat, qs, e2, strides, st, first):
        facts = None
        for k in sorted(st, key=lambda k: (first and k is kat, stride_rank(st[k])), reverse=True):
            s = st[k]
            rest = X.padd(off, X.pmul(s, X.patom(k)), -1)
            q0, r0 = polydiv(rest, s)
            q, r = strides.get((s, x.key)) or polydiv(x, s)
            if q is None or q0 is None or not intpoly(q) or not intpoly(q0) or any(a in st for m, _ in q0.t for a, _ in m):
                return None         # (two indices of the same stride do not separate)
            if (s, x.key) not in strides:
                if not self.within(r, s, self.facts + self.ctx):
                    return None
                strides[(s, x.key)] = (q, r)
            if facts is None:
                facts = self.wcases(w, qs, e2)
            if not all(self.within(r0, s, f) for f in facts):
                return None
            if k is kat:
                return X.padd(q, q0, -1)
            off, x = r0, r
        return None

    def solve_for(self, w, x, env, info, qs):
        """value of info.kat at which write w addresses x: Poly | NOMATCH | None (scattered) | 0-ary 'inv'"""
        ks = [info.kat] + [q for q in qs if q is not info.kat]
        e2 = {k: v for k, v in env.items() if k not in ks}
        try:
            off = self.psub(e2, w.off)
        except Unresolved:
            return None
        # atoms of x that coincide with quantified atoms must be kept apart
        ren = {k: at(atom("tmpx", n, isint=True, dom=(0, None))) for n, k in enumerate(ks)}
        xx = Env(ren).poly(x)
        if xx.q is not None:
            return None
        s = solve(off, xx.leaf, ks)
        if s is NOMATCH or s is None:
            return s
        if info.kat not in s:
            return "inv"
        back = Env({v.leaf.t[0][0][0][0]: at(k) for k, v in ren.items()})
        r = back.poly(s[info.kat])
        return r.leaf

    def read_loop(self, c, x, ty, env, bottom):
        info = c.info
        outer_env = {k: v for k, v in env.items() if k is not info.kat}
        older = lambda: self.read(c.older, x, ty, outer_env, bottom)
        tc = self.sub(outer_env, info.tc)
        ls = self.layers(c.inner)
        sols = self.solutions(ls, x, outer_env, info)
        live = [(w, qs, s) for (w, qs), s in zip(ls, sols) if s is not NOMATCH]
        if not live:
            return older()
        S = [s for _, _, s in live]
        if all(isinstance(s, X.Poly) for s in S):
            uniq = list(dict.fromkeys(S))
            if len(uniq) == 1:
                return self.at_iter(c, x, ty, outer_env, L(uniq[0]), tc, older)
            if all(w.kind != "acc" and len(qs) == 0 for w, qs, _ in live):
                return self.several(c, live, x, ty, outer_env, tc, older)
        if all(w.kind == "acc" for w, _, _ in live):
            t = atom("tmpr", info.depth, isint=True, dom=(0, None))
            e2 = dict(outer_env)
            e2[info.kat] = at(t)
            body = self.read(c.inner, x, ty, e2, lambda: FALSE)
            body = X.strip_bot(body)
            s = X.mksum(tc, t, body)
            if not self.nonneg(tc):
                s = ite(cmp("le", tc, FALSE, True), FALSE, s)
            return add(older(), s)
        if all(s == "inv" for s in S):
            e2 = dict(outer_env)
            e2[info.kat] = sub(tc, TRUE)
            mark = at(atom("carried", "last", x))
            r = self.read(c.inner, x, ty, e2, lambda: mark)
            return ite(cmp("ge", tc, TRUE, True), r, older())
        ws = sorted((w.kind, w.off.key) for w, _, _ in live)
        return at(atom("mixed", x, tuple(str(k) for k in ws), tc))

    def at_iter(self, c, x, ty, env, k, tc, older):
        e2 = dict(env)
        e2[c.info.kat] = k
        old = self.ctx
        if k.q is None:
            self.ctx = self.ctx + [k.leaf]
            if tc.q is None:
                self.ctx = self.ctx + derive(X.padd(X.padd(tc.leaf, k.leaf, -1), X.ONE, -1))
        inner = self.read(c.inner, x, ty, e2, older)
        self.ctx = old
        g = AND(cmp("ge", k, FALSE, True), cmp("lt", k, tc, True))
        return ite(g, inner, older())

    def several(self, c, live, x, ty, env, tc, older):
        """distinct stores of one loop body: the one executed last wins (live is newest first)"""
        cands = []
        for n, (w, qs, s) in enumerate(live):
            k = L(s)
            e2 = dict(env)
            e2[c.info.kat] = k
            v, cd = w.get()
            g = AND(AND(cmp("ge", k, FALSE, True), cmp("lt", k, tc, True)), AND(self.match(w, x, e2), self.sub(e2, cd)))
            cands.append((g, k, self.sub(e2, v)))
        r = older()
        # r accumulates the best among the older candidates, kbest its iteration
        best = None
        for g, k, v in reversed(cands):
            if best is None:
                r2 = ite(g, v, r)
                best = [(g, k)]
            else:
                later = TRUE
                for g0, k0 in best:
                    later = AND(later, OR(NOT(g0), cmp("ge", k, k0, True)))
                r2 = ite(AND(g, later), v, r)
                best.append((g, k))
            r = r2
        return r

    def nonneg(self, n):
        return all(p is not BOT and (lower(p) is not None and lower(p) >= 0) for p in X.leaves(n, set()))


# ---- states -------------------------------------------------------------------------------------

class State(dict):
    """chains of one nesting level; anything not touched there comes from the enclosing level"""

    def __init__(self, parent, info):
        dict.__init__(self)
        self.parent, self.info = parent, info

    def copy(self):
        s = State(self.parent, self.info)
        s.update(self)
        return s

    def items_changed(self, start):
        return [(b, c) for b, c in self.items() if not isinstance(c, IT)]


def chain(eng, state, b):
    c = state.get(b)
    if c is not None:
        return c
    if isinstance(state, State):
        it = IT()
        it.info, it.base = state.info, b
        it.older = chain(eng, state.parent, b)
        return it
    return initial(eng, b)


def initial(eng, b):
    i = eng.chains0.get(b)
    if i is None:
        i = INIT()
        i.base, i.kind = b, eng.initf(b)
        eng.chains0[b] = i
    return i


def setchain(state, b, c):
    s = state.copy() if isinstance(state, State) else dict(state)
    s[b] = c
    return s


def collect(n, c, out):
    if n.q is None:
        out[n.leaf] = OR(out[n.leaf], c) if n.leaf in out else c
        return
    lo = None
    isint = X.isint_poly(n.q)
    for i, k in enumerate(n.kids):
        hi = n.cuts[i] if i < len(n.cuts) else None
        g = c
        if lo is not None:
            g = AND(g, cmp("ge" if lo[1] == 0 else "gt", L(n.q), num(lo[0]), isint))
        if hi is not None:
            g = AND(g, cmp("lt" if hi[1] == 0 else "le", L(n.q), num(hi[0]), isint))
        collect(k, g, out)
        lo = hi


def retype(v, ty):
    """a copied word read back as ty"""
    if ty == "i64" or v.q is not None or len(v.leaf.t) != 1:
        return v
    m, c = v.leaf.t[0]
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ld" and m[0][0].args[1] == "i64" and m[0][0].args[2] == ():
        p, _, tag = m[0][0].args
        a = atom("ld", p, ty, tag, isint=ty == "ptr")
        if ty == "ptr":
            gsa.mark_ptr(a)
        return at(a)
    return v


def write_range(eng, e, state, loops, base, off, n, val, kind="st", cond=TRUE, ty="double"):
    """n consecutive words of size of ty; val(k) is the word's value"""
    info = LoopInfo()
    info.uid, info.kat, info.tc, info.depth, info.done = ("range", e.seq, base.key, off.key), atom("k", "range", isint=True, dom=(0, None)), n, 90, True
    inner = State(state, info)
    x = X.padd(off, X.pscale(X.patom(info.kat), SIZES[ty]))
    inner = eng.write(inner, loops + (info,), base, x, kind, val(at(info.kat)), cond, ty, e)
    lp = LP()
    lp.info, lp.inner, lp.older = info, inner[base], chain(eng, state, base)
    info.body = {base: inner[base]}
    return setchain(state, base, lp)


def place(eng, n, what):
    n = eng.addr.node(n)
    if n.q is not None:
        n = X.strip_bot(n)
    if n.q is not None:
        raise Unresolved(f"conditional {what}")
    b, off = gsa.base_of(n.leaf)
    if b is None:
        raise Unresolved(f"{what} without object")
    return b, off


def plan_len(eng, n, what):
    """length of the transform a plan was made for"""
    n = X.strip_bot(eng.addr.node(n))
    out = set()
    for p in X.leaves(n, set()):
        m = p.t[0][0] if len(p.t) == 1 else ()
        if len(m) != 1 or m[0][0].kind != "ret" or m[0][0].args[0] != what:
            raise Unresolved(f"plan not recognised: {X.show(n)[:200]}")
        out.add(unint(m[0][0].args[1][0]))
    if len(out) != 1:
        raise Unresolved("plan of several lengths")
    return out.pop()


def nyquist(k, n, v):
    """v at 2 k = n, as a function of k (only used when n is even)"""
    d = X.padd(X.pscale(X.patom(k), 2), n, -1)
    return X.mklam(k, [d, X.pneg(d)], v)


def unint(n):
    """transform lengths fit an int"""
    def f(p):
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a, k = p.t[0][0][0]
            if k == 1 and a.kind == "fn" and a.args[0] in ("trunc32", "sext"):
                return a.args[1] if isinstance(a.args[1], X.Node) else L(a.args[1])
        return L(p)
    return X.apply(f, n)


def fft_model(eng, e, state, loops):
    """real transforms: the output is a function of the length and of the input as a function of its index"""
    if e.kind != "call":
        return None
    single = e.name.startswith("fftwf_")
    nm = e.name.replace("fftwf_", "fftw_")
    ty = "float" if single else "double"
    sz = SIZES[ty]
    kats = tuple(i.kat for i in loops)

    def word(b, off, k):
        return at(atom("ld", X.padd(X.patom(b), X.padd(off, X.pscale(k, sz))), ty, ("v", e.seq, e.uids, kats)))
    if nm in ("fftw_execute_dft_c2r", "spec_c2r"):
        n = eng.addr.node(e.args[0]) if nm == "spec_c2r" else plan_len(eng, e.args[0], e.name.replace("execute_dft_c2r", "plan_dft_c2r_1d"))
        bi, oi = place(eng, e.args[1], "transform input")
        bo, oo = place(eng, e.args[2], "transform output")
        k = atom("tmpq", "fft", isint=True, dom=(0, None))
        kp = X.patom(k)
        def val(i):
            def f(nn):
                re = X.mklam(k, [X.padd(X.padd(nn, X.pscale(kp, 2), -1), X.ONE, -1)], word(bi, oi, X.pscale(kp, 2)))
                ny = nyquist(k, nn, word(bi, oi, X.pscale(kp, 2)))
                im = X.mklam(k, [X.padd(kp, X.ONE, -1), X.padd(X.padd(nn, X.pscale(kp, 2), -1), X.ONE, -1)],
                             word(bi, oi, X.padd(X.pscale(kp, 2), X.ONE)))
                return X.apply(lambda a, b, c, ii: at(atom("c2r", nn, a, b, c, ii)), re, im, ny, i)
            return X.apply(f, n)
        state = write_range(eng, e, state, loops, bo, oo, n, val, cond=e.cond, ty=ty)
        if bi is not bo:
            half = add(mul(X.fn("sdiv", n, num(2)), num(2)), num(2))
            state = write_range(eng, e, state, loops, bi, oi, half, lambda i: at(atom("clobbered", e.seq)), cond=e.cond, ty=ty)
        return state
    if nm in ("fftw_execute_dft_r2c", "spec_r2c"):
        n = eng.addr.node(e.args[0]) if nm == "spec_r2c" else plan_len(eng, e.args[0], e.name.replace("execute_dft_r2c", "plan_dft_r2c_1d"))
        bi, oi = place(eng, e.args[1], "transform input")
        bo, oo = place(eng, e.args[2], "transform output")
        k = atom("tmpq", "fft", isint=True, dom=(0, None))
        kp = X.patom(k)
        def f(nn, part, i):
            x = X.mklam(k, [X.padd(X.padd(nn, kp, -1), X.ONE, -1)], word(bi, oi, kp))
            return X.apply(lambda a, ii: at(atom("r2c", part, nn, a, ii)), x, i)
        half = add(X.fn("sdiv", n, num(2)), TRUE)
        s1 = LoopInfo()
        s1.uid, s1.kat, s1.tc, s1.depth, s1.done = ("range", e.seq, bo.key, oo.key), atom("k", "range", isint=True, dom=(0, None)), half, 90, True
        inner = State(state, s1)
        for part in (0, 1):
            x = X.padd(X.padd(oo, X.pconst(part * sz)), X.pscale(X.patom(s1.kat), 2 * sz))
            inner = eng.write(inner, loops + (s1,), bo, x, "st", X.apply(lambda nn: f(nn, part, at(s1.kat)), n), e.cond, ty, e)
        lp = LP()
        lp.info, lp.inner, lp.older = s1, inner[bo], chain(eng, state, bo)
        s1.body = {bo: inner[bo]}
        return setchain(state, bo, lp)
    return None


# ---- models of opaque operations -------------------------------------------------------------------

def kernel_model(eng, e, state, loops):
    """the absorption filter adds one response to a whole column; reports of out-of-range cells are counted per point"""
    from .compose import short, dname
    if e.kind == "oob" or (e.kind == "call" and short(dname(e.name)) == "spec_oob"):
        b = gsa.mark_ptr(atom("sym", "reports", isint=True))
        off = X.pscale(X.patom(loops[0].kat), Q(8)) if loops else X.ZERO
        return eng.write(state, loops, b, off, "acc", TRUE, e.cond, "double", e)
    if e.kind != "call":
        return None
    d = short(dname(e.name))
    if d == "Attenuation::att":
        o, r, it, h, ai = [eng.addr.node(e.args[k]) for k in (0, 3, 4, 5, 6)]
        if o.q is not None:       # the object exists only where it is needed
            o = X.strip_bot(ite(eng.addr.node(e.cond), o, UNDEF))
        if o.q is not None:
            ps = [p for p in X.leaves(o, set()) if p is not BOT and p.t]
            if len(ps) == 1:
                o = L(ps[0])
        if o.q is not None or len(o.leaf.t) != 1 or o.leaf.t[0][0][0][0].kind != "obj":
            raise Unresolved("absorption object not recognised: " + X.show(o)[:100])
        o = o.leaf.t[0][0][0][0].args[1]
        n, rest = o[0], (o[1], o[2])
    elif d == "spec_att":
        n, dt, al, r, it, h, ai = [eng.addr.node(a) for a in e.args[:7]]
        rest = (dt, al)
    else:
        return None
    if h.q is not None:
        raise Unresolved("conditional output column")
    b, off = gsa.base_of(h.leaf)
    info = LoopInfo()
    info.uid, info.kat, info.tc, info.depth, info.done = ("att", e.seq), atom("k", "att", isint=True, dom=(0, None)), n, 90, True
    inner = State(state, info)
    x = X.padd(off, X.pscale(X.patom(info.kat), 8))
    val = mul(ai, X.apply(lambda *ps: at(atom("green", *ps)), n, *rest, r, it, at(info.kat)))
    inner = eng.write(inner, loops + (info,), b, x, "acc", val, e.cond, "double", e)
    lp = LP()
    lp.info, lp.inner, lp.older = info, inner[b], chain(eng, state, b)
    info.body = {b: inner[b]}
    return setchain(state, b, lp)
