"""How a threaded entry point divides its columns over threads, and how it starts and joins them."""
import re
from . import compose, facts as Fa, gsa, octave, expr as X
from .expr import at, atom, num, AND, OR, NOT, TRUE, FALSE, UNDEF, BOT

LIMIT = 4000


def contradictory(fs):
    """the facts exclude each other"""
    for n, f in enumerate(fs):
        lo = X.lower(X.pneg(f))
        if lo is not None and lo > 0 or Fa.prove_ge0(X.padd(X.pconst(-1), f, -1), fs[:n] + fs[n + 1:], depth=3):
            return True
    return False


class Split:
    """the cases of a decision diagram with the facts of each"""

    def __init__(self, relevant=None):
        self.count = 0
        self.relevant = relevant        # atoms of interest: other tests are branched over but not remembered
        self.seen = set()

    def walk(self, n, fs, out):
        if self.relevant is not None:
            key = (n.key, tuple(sorted(f.key for f in fs)))
            if key in self.seen:
                return
            self.seen.add(key)
        if n.q is None:
            if n.leaf is not BOT:
                self.count += 1
                if self.count > LIMIT:
                    raise compose.AnalysisError("too many cases in the division of work")
                out(n.leaf, fs)
            return
        isint = X.isint_poly(n.q)
        if self.relevant is not None and not all(a in self.relevant for a in n.q.atoms()):
            for k in n.kids:
                self.walk(k, fs, out)
            return
        for i, k in enumerate(n.kids):
            f = list(fs)
            if i:
                v, s = n.cuts[i - 1]
                f.append(X.padd(n.q, X.pconst(v + (1 if s and isint else 0)), -1))
            if i < len(n.cuts):
                v, s = n.cuts[i]
                f.append(X.padd(X.pconst(v - (1 if isint and s == 0 else 0)), n.q, -1))
            if k.q is None or not contradictory(f):
                self.walk(k, f, out)


def evaluate(x, env):
    """value of a normal form under an assignment of integers to its atoms; None: not an arithmetic term"""
    if isinstance(x, X.Node):
        while x.q is not None:
            v = evaluate(x.q, env)
            if v is None:
                return None
            i = 0
            while i < len(x.cuts) and (v > x.cuts[i][0] or v == x.cuts[i][0] and x.cuts[i][1] == 0):
                i += 1
            x = x.kids[i]
        return None if x.leaf is BOT else evaluate(x.leaf, env)
    if isinstance(x, X.Poly):
        s = 0
        for m, c in x.t:
            p = c
            for a, e in m:
                v = evaluate(a, env)
                if v is None or e < 0 and v == 0:
                    return None
                p *= v ** e
            s += p
        return s
    if x in env:
        return env[x]
    if x.kind == "fn" and x.args[0] in ("sdiv", "udiv", "srem", "urem"):
        a, b = evaluate(x.args[1], env), evaluate(x.args[2], env)
        if a is None or not b:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if x.args[0].endswith("div") else a - b * q
    if x.kind == "fn" and x.args[0] in ("trunc32", "zext32", "sext32", "u32"):
        return evaluate(x.args[1], env)
    return None


def exact(p):
    """quotients that are exact"""
    m = {}
    for mono, _ in p.t:
        for a, _e in mono:
            if a.kind == "fn" and a.args[0] in ("sdiv", "udiv"):
                n, d = a.args[1], a.args[2]
                if isinstance(n, X.Poly) and isinstance(d, X.Poly) and d.t:
                    q = quotient(n, d)
                    if q is not None:
                        m[a] = X.L(q)
    return X.Subst(m).node(X.L(p)).leaf if m else p


def quotient(n, d):
    """n / d when d is a single positive term dividing every term of n"""
    if not n.t:
        return X.ZERO
    if len(d.t) != 1:
        return None
    (dm, dc), = d.t
    out = {}
    for m, c in n.t:
        e = dict(m)
        for a, k in dm:
            if e.get(a, 0) < k:
                return None
            e[a] -= k
            if not e[a]:
                del e[a]
        if (c / dc).denominator != 1:
            return None
        out[tuple(sorted(e.items(), key=lambda t: t[0].key))] = c / dc
    return X.mkpoly(out)


class Division:
    """obligations of one launch site; problems are reported through bad(key, text)"""

    def __init__(self, T, N, bad, what):
        self.T, self.what = T, what
        self.count = N.t[0][0][0][0] if N.t[0][0][0][0].kind == "ld" else None       # a member that holds the number of columns
        self.N = X.patom(atom("sym", "count", isint=True, dom=(0, None))) if self.count is not None else N
        self.done = []
        self.bounded = 0
        self.bad = bad
        self.run()

    def say(self, key, text):
        self.bad(key, f"{self.what}: {text}")

    def plain(self, n):
        """without 32-bit truncations of counts (the numbers of columns and threads are below 2^31); the number of columns is a count"""
        k = self.T.kt
        m = octave.counts(n)
        for a in X.atomset(n):
            if a.kind == "fn" and a.args[0] in ("trunc32", "zext32", "sext32", "u32"):
                m[a] = X.L(a.args[1])
            elif a is self.count:
                m[a] = at(atom("sym", "count", isint=True, dom=(0, None)))
        if not m:
            return n
        if k is not None:
            m[k] = at(k)            # a loop counter is named by its loop: keep the name
        return X.Subst(m).node(n)

    def cont(self, la, k):
        """the launch loop goes on at iteration k"""
        me = atom("self", la.args[0], isint=True, dom=(0, None))
        S = X.Subst({me: k})
        r = TRUE
        for _, c in la.args[1]:
            r = AND(r, NOT(S.node(c)))
        return self.plain(r)

    def prove(self, name, cond, goal, fs=()):
        """goal (polynomials a, b -> a == b, or p >= 0) on every case of cond"""
        self.done.append(name)
        sp = Split()
        bad = []

        def leaf(p, f):
            if bad:
                return
            if p is X.ZERO:
                return
            a = p.t[0][0][0][0] if len(p.t) == 1 else None
            if a is None or a.kind != "case":
                return
            for kind, q in goal(*a.args):
                q = exact(q)
                q = self.monotone(q, f) if kind == "ge" else q
                ok = (q is X.ZERO or Fa.prove_ge0(q, f) and Fa.prove_ge0(X.pneg(q), f)) if kind == "eq" else Fa.prove_ge0(q, f)
                if not ok and not contradictory(f):
                    bad.append((kind, q))
        sp.walk(cond, list(fs), leaf)
        self.cases = getattr(self, "cases", 0) + sp.count
        return bad

    def monotone(self, p, fs):
        """a lower bound of p without differences of quotients by the same divisor"""
        qs = [(m[0][0], c) for m, c in p.t if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] in ("sdiv", "udiv")]
        for a, c in qs:
            for b, d in qs:
                if c > 0 and d == -c and a.args[2] is b.args[2] and a.args[1] is not b.args[1] and \
                        Fa.prove_ge0(X.padd(a.args[2], X.ONE, -1), fs) and Fa.prove_ge0(X.padd(a.args[1], b.args[1], -1), fs):
                    return self.monotone(X.padd(p, X.pscale(X.padd(X.patom(a), X.patom(b), -1), c), -1), fs)
        return p

    def case(self, cond, *ns):
        def mk(c, *ps):
            if c is BOT or any(p is BOT for p in ps):
                return UNDEF
            if c is X.ZERO:
                return FALSE
            return at(atom("case", *ps))
        return X.apply(mk, cond, *ns)

    def run(self):
        T = self.T
        th = [l for l in T.L if l.threaded]
        if not th:
            raise compose.AnalysisError(f"{self.what}: no thread is started")
        if T.start is None:
            self.say("range", "the worker does not loop over a range of columns taken from its record")
            return
        l = th[0]
        la = T.threadloop
        if la is None:
            self.say("loop", "threads are not started in a loop")
            return
        k = T.kt
        kn = at(k)
        start, stop = self.plain(T.fields[T.start]), self.plain(T.fields[T.stop])
        N = X.L(self.N)
        up = X.Subst({k: X.add(kn, TRUE)})
        here, nxt, first = self.cont(la, kn), self.cont(la, X.add(kn, TRUE)), self.cont(la, FALSE)
        zero = X.Subst({k: FALSE})
        last = AND(here, NOT(nxt))
        both = AND(here, nxt)
        one = X.ONE
        goals = [
            ("a thread is started when there are columns", self.case(NOT(first), N), lambda n: [("ge", X.pneg(n))]),
            ("the first range starts at 0", self.case(first, zero.node(start)), lambda s: [("eq", s)]),
            ("the last range ends at the last column", self.case(last, stop, N, kn), lambda e, n, c: [("eq", X.padd(e, n, -1))]),
            ("every range starts where the one before ends", self.case(both, stop, up.node(start)), lambda e, s: [("eq", X.padd(e, s, -1))]),
            ("no more threads than columns", self.case(AND(here, X.cmp("ge", kn, TRUE, True)), N, kn),
             lambda n, c: [("ge", X.padd(X.padd(n, c, -1), one, -1))]),
            ("no range ends before it starts", self.case(here, start, stop), lambda s, e: [("ge", X.padd(e, s, -1))]),
        ]
        for name, c, g in goals:
            bad = self.last(name, c, k, here, g) if "last range" in name else self.prove(name, c, g)
            if bad:
                self.refute(name, k, here, nxt, first, start, stop)
        self.threads(l, la, k, here)

    def last(self, name, c, k, here, g):
        """in the last iteration the thread number is the number of threads minus one"""
        ub = {}

        def leaf(p, f):
            pass
        out = []
        self.done.append(name)
        sp = Split()

        def leaf2(p, f):
            if out or p is X.ZERO:
                return
            a = p.t[0][0][0][0] if len(p.t) == 1 else None
            if a is None or a.kind != "case":
                return
            e, n, _ = a.args
            # k is pinned to c - 1: find a fact pair k >= c - 1 and k <= c - 1
            for q in f:
                kk = [cf for m, cf in q.t if len(m) == 1 and m[0] == (k, 1)]
                if len(kk) == 1 and abs(kk[0]) == 1 and not any(b is k for m, cf in q.t for b, x in m if len(m) > 1):
                    v = X.padd(X.patom(k), X.pscale(q, kk[0]), -1)      # the value at which the fact is tight
                    if Fa.prove_ge0(X.padd(v, X.patom(k), -1), f) and Fa.prove_ge0(X.padd(X.patom(k), v, -1), f):
                        S = X.Subst({k: X.L(v)})
                        r = exact(S.node(X.L(X.padd(e, n, -1))).leaf) if S.node(X.L(e)).q is None else None
                        if r is X.ZERO:
                            return
            if not contradictory(f):
                out.append(("eq", X.padd(e, n, -1)))
        sp.walk(c, [], leaf2)
        self.cases = getattr(self, "cases", 0) + sp.count
        return out

    def refute(self, name, k, here, nxt, first, start, stop):
        """a case the rules do not settle is decided by evaluating the formulas on small counts"""
        cores, tenv, genv = (atom("sym", n, isint=True, dom=(0, None)) for n in ("cores", "threads_env", "getenv"))
        names = set()
        for n in (here, nxt, first, start, stop):
            names |= {a for a in X.atomset(n) if a.kind == "sym" and a.args[0] == "getenv"}
        Nat = [a for m, _ in self.N.t for a, _e in m]
        n_ev = 0
        for n in list(range(0, 12)) + [17, 32]:
            for c in (0, 1, 2, 3, 5, 8):
                for t in (None, 0, 1, 2, 3, 7, 100):
                    env = {cores: c, tenv: t or 0, Nat[0]: n}
                    for g in names:
                        env[g] = 0 if t is None else 1
                    rs = []
                    kk = 0
                    while kk < 300:
                        env[k] = kk
                        h = evaluate(here, env)
                        if h is None:
                            self.say(name, f"not established: {name}")
                            return
                        if not h:
                            break
                        rs.append((evaluate(start, env), evaluate(stop, env)))
                        kk += 1
                    n_ev += 1
                    setting = f"{n} columns, {c} cores" + (f", DREAM_NUM_THREADS={t}" if t is not None else "")
                    if None in [x for r in rs for x in r]:
                        self.say(name, f"not established: {name}")
                        return
                    if not rs and n:
                        self.say(name, f"no thread and no direct call with {setting}")
                        return
                    cover = [x for a, b in rs for x in range(int(a), int(b))]
                    if cover != list(range(n)) or len(rs) > max(1, n):
                        self.say(name, f"{name}: violated with {setting}: the ranges are {[(int(a), int(b)) for a, b in rs][:9]}")
                        return
        self.bounded += 1

    # -- starting and joining --------------------------------------------------------------------------------
    def threads(self, l, la, k, here):
        T = self.T
        cond = self.plain(l.effect.cond)
        # every iteration either starts a thread or calls the worker itself
        direct = [x for x in T.L if not x.threaded]
        any_ = cond
        base = self.plain(self.entered(l, la))
        for d in direct:
            dc = self.plain(d.effect.cond)
            if AND(cond, dc) is not FALSE and not self.never(AND(cond, dc)):
                self.say("twice", "a range is handed to a thread and processed directly as well")
            any_ = OR(any_, dc)
            if d.daddr is not None and not self.same(d.daddr, l.daddr, AND(dc, here), k):
                self.say("record", "the direct call is handed a record other than the one filled in")
        self.done.append("every range is handed to exactly one worker call")
        miss = AND(base, NOT(any_))
        if miss is not FALSE and not self.never(AND(miss, here)):
            self.say("skipped", "a range is neither handed to a thread nor processed directly")
        # record complete before the thread starts
        self.done.append("the record is complete before the thread starts")
        for off, es in T.fields_of(l).items():
            for e in es:
                if e.kind == "store" and e.seq > l.effect.seq and e.loops and e.loops == l.effect.loops:
                    self.say("late", f"field at offset {off} of the record is written after the thread was started")
        # the object the thread is kept in
        self.done.append("every started thread is joined before the record is freed and the function returns")
        E = T.E
        moves = [e for e in E.effects if e.kind == "call" and compose.short(compose.dname(e.name)) == "std::thread::operator=" and
                 e.loops == l.effect.loops]
        joins = [e for e in E.effects if e.kind == "call" and compose.short(compose.dname(e.name)) == "std::thread::join"]
        detach = [e for e in E.effects if e.kind == "call" and compose.short(compose.dname(e.name)) == "std::thread::detach"]
        home = moves[0].args[0] if moves else l.effect.args[0]
        if detach:
            self.say("detached", "a thread is detached")
        ok = False
        for j in joins:
            if not j.loops or j.seq < l.effect.seq:
                continue
            kj = atom("k", j.loops[-1], isint=True, dom=(0, None))
            S = X.Subst({kj: at(k)})
            jc = self.plain(S.node(j.cond))
            ja = S.node(j.args[0])
            hj = self.cont(j.loops[-1], at(k)) if j.loops[-1] is not la else here
            if X.sub(self.plain(ja), self.plain(home)) is not FALSE and ja is not home:
                continue
            missed = AND(AND(cond, here), NOT(AND(jc, hj)))
            if missed is FALSE or self.never(missed):
                ok = True
                for f in E.effects:
                    if f.kind == "call" and f.name in ("free", "_ZdaPv", "_ZdlPv", "_ZdlPvm") and l.effect.seq < f.seq < j.seq and \
                            f.args and f.args[0].q is None and gsa.base_of(f.args[0].leaf)[0] is gsa.base_of(l.daddr.leaf)[0]:
                        self.say("freed", "the record is freed before the threads are joined")
        if not ok:
            self.say("join", "not every started thread is joined before the function returns")

    def entered(self, l, la):
        """condition under which the launch loop runs at all: that of the stores of the record"""
        r = FALSE
        for es in self.T.fields_of(l).values():
            for e in es:
                r = OR(r, e.cond)
        return r

    def never(self, c):
        live = []

        def leaf(p, f):
            if p is not X.ZERO and not contradictory(f):
                live.append(f)
        rel = {self.T.kt} | {a for m, _ in self.N.t for a, _e in m} | \
            {a for a in X.atomset(c) if a.kind == "sym" and a.args[0] in ("cores", "threads_env", "getenv")}
        Split(rel).walk(c, [], leaf)
        return not live

    def same(self, a, b, cond, k):
        """the two record addresses agree where cond holds"""
        if a is b:
            return True
        d = X.sub(self.plain(a), self.plain(b))
        c = self.case(AND(cond, NOT(X.cmp("eq", d, FALSE, True))), num(-1))
        return c is FALSE or self.never(X.apply(lambda p: FALSE if p is X.ZERO else TRUE, c))
