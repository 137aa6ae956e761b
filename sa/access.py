"""Accesses of a function: every element read or written, with the conditions and the loops it happens under, and the proof that
it lies inside the array it belongs to."""
import math
from fractions import Fraction, Fraction as Q
from . import arrays, compose, linear, facts as Fa, gsa, expr as X
from .division import Split, contradictory
from .expr import at, atom, num, ite, cmp, AND, NOT, TRUE, FALSE, UNDEF, BOT

WIDTH = {"double": 8, "float": 4, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "i1": 1, "ptr": 8, "<2 x double>": 16, "<4 x float>": 16,
         "<2 x float>": 8, "<2 x i64>": 16}
ALLOC = {"malloc": 0, "_Znwm": 0, "_Znam": 0, "fftw_malloc": 0, "fftwf_malloc": 0, "_ZnwmRKSt9nothrow_t": 0, "_ZnamRKSt9nothrow_t": 0}


def on_read(S, i, a):
    S.effect("read", i, addr=a, size=i.ty.s)


def allocating(base):
    """an on_call hook that also records how much is allocated"""
    def call(S, i, name, args):
        r = base(S, i, name, args)
        if r is not None and (name in ALLOC or name == "calloc"):
            n = X.mul(args[0], args[1]) if name == "calloc" else args[0]
            S.effect("alloc", i, addr=r, args=[n])
        return r
    return call


class Access:
    __slots__ = ("kind", "base", "off", "width", "cond", "eff", "word")


def inherited(worker, entry, also=None):
    """{what a worker reads of the objects of its caller: what the caller stored there}"""
    return origins({x for e in worker for n in [e.cond, e.addr, e.val, *(e.args or ()), *e.tcs] if isinstance(n, X.Node) for x in X.atomset(n)}, entry, also)


def origins(atoms, entry, also=None):
    out = {}
    for x in atoms:
        if x.kind == "ld" and x.args[2] == () and isinstance(x.args[0], X.Poly):
            b = gsa.base_of(x.args[0])[0]
            if b is not None and (b.kind == "alloca" or b.kind == also or also and b.kind == "heap"):
                r = UNDEF
                for e in entry:
                    if e.kind == "store" and e.addr.q is None and e.addr.leaf is x.args[0]:
                        r = e.val if r is UNDEF else ite(e.cond, e.val, r)
                if r is not UNDEF:
                    out[x] = r
            elif b is not None and b.kind == "heap":
                v = table(x, b, entry)
                if v is not None:
                    out[x] = v
    return out


def table(x, b, entry):
    """an entry of a table that a loop of the caller fills from end to end"""
    st = [e for e in entry if e.kind in ("store", "acc", "memset", "memcpy") and any(p is not BOT and gsa.base_of(p)[0] is b for p in X.leaves(e.addr, set()))]
    al = [e for e in entry if e.kind == "alloc" and any(p is not BOT and gsa.base_of(p)[0] is b for p in X.leaves(e.addr, set()))]
    if len(st) != 1 or len(al) != 1 or st[0].kind != "store" or len(st[0].loops) != 1 or st[0].addr.q is not None:
        return None
    e = st[0]
    k = atom("k", e.loops[0], isint=True, dom=(0, None))
    w = WIDTH[str(e.size)]
    if gsa.base_of(e.addr.leaf)[1] is not X.pscale(X.patom(k), w) or X.mul(num(w), e.tcs[0]) is not X.strip_bot(ite(e.cond, al[0].args[0], UNDEF)):
        return None
    i = X.pscale(gsa.base_of(x.args[0])[1], Fraction(1, w))
    v = X.Subst({k: X.L(i)}).node(X.strip_bot(ite(e.cond, e.val, UNDEF)))
    return v if v.q is None else None


class Pointers(arrays.Engine):
    """what the pointer variables hold; fills and copies of whole arrays do not touch them"""

    def apply(self, e, state, loops):
        if e.kind in ("memset", "memcpy"):
            n = e.args[-1]
            if n.q is not None or n.leaf.const() is None or n.leaf.const() > 512:
                return state
        return super().apply(e, state, loops)

    def read_at(self, state, p, ty, env):
        if gsa.base_of(p)[0] is None:
            return UNDEF                        # null: the access itself is judged
        return super().read_at(state, p, ty, env)


class Judge:
    def __init__(self, effects, facts, launch=TRUE, init=None, model=None, resolve=True, before=None):
        self.facts, self.launch = list(facts), launch
        self.eng = None
        self.effects = effects
        self.before = before
        if resolve:
            self.eng = Pointers([self.limited(e) for e in effects], init=init or (lambda b: "uninit" if b.kind in ("heap", "alloca") and (before is None or b.args[0] == "W") else "param"), model=model or quiet)
        self.sizes = {}
        self.strides = {}
        self.cases = 0
        for e in effects:
            if e.kind == "alloc":
                self.allocated(e)

    def allocated(self, e):
        for p in X.leaves(self.node(e.addr), set()):
            if p is not BOT:
                b, off = gsa.base_of(p)
                if b is not None:
                    self.sizes[b] = self.node(e.args[0])

    def limited(self, e):
        """the effect with its address where it happens only"""
        if e.addr is None or e.addr.q is None or e.kind not in ("store", "acc", "memset", "memcpy"):
            return e
        r = gsa.Effect()
        for k in gsa.Effect.__slots__:
            setattr(r, k, getattr(e, k))
        r.addr = X.strip_bot(ite(AND(self.launch, e.cond), e.addr, UNDEF))
        if any(p is not BOT and gsa.base_of(p)[0] is None for p in X.leaves(r.addr, set())):
            c = TRUE                            # null for an empty array: no iteration of the loops
            for tc in e.tcs:
                c = AND(c, cmp("lt", FALSE, tc, True))
            r.addr = X.strip_bot(ite(c, r.addr, UNDEF))
        return r

    def extent(self, a, arrays_):
        """(lower, upper) of the array accessed; "fixed" for a whole object of fixed layout (a record, a global, a local)"""
        b = a.base
        if b is None:
            return (FALSE, FALSE)               # no object: only if it cannot happen
        if b in arrays_:
            return arrays_[b]
        if b in self.sizes:
            return (FALSE, self.sizes[b])
        if a.off.const() is not None and b.kind in ("sym", "arg", "heap") and b not in self.sizes and a.kind == "read":
            return "fixed"                      # a field of an object that was handed over
        if a.off.const() is not None and a.width.q is None and a.width.leaf.const() is not None and b.kind in ("sym", "glob", "alloca"):
            return "fixed"
        return None

    def node(self, n):
        return n if self.eng is None else self.eng.addr.node(n)

    def accesses(self):
        out = []
        for e in self.effects:
            if e.kind in ("store", "acc", "read"):
                self.split(out, "read" if e.kind == "read" else "write", e, e.addr, WIDTH.get(str(e.size)))
                if e.kind == "store" and e.ins.op in ("call", "invoke"):       # a copy: the source
                    for x in X.atomset(e.val):
                        if x.kind == "ld" and isinstance(x.args[0], X.Poly):
                            self.split(out, "read", e, X.L(x.args[0]), WIDTH.get(str(e.size)))
            elif e.kind in ("memcpy", "memset"):
                self.split(out, "write", e, e.addr, e.args[-1])
                if e.kind == "memcpy":
                    self.split(out, "read", e, e.args[0], e.args[-1])
            elif e.kind == "call":
                self.call(out, e)
        return out

    def call(self, out, e):
        d = compose.short(compose.dname(e.name))
        nm = e.name.replace("fftwf_", "fftw_")
        sz = 4 if e.name.startswith("fftwf_") else 8
        if d == "Attenuation::att":
            o = X.strip_bot(X.ite(self.node(e.cond), self.node(e.args[0]), UNDEF))
            ps = [p for p in X.leaves(o, set()) if p is not BOT and p.t]
            if len(ps) != 1 or ps[0].t[0][0][0][0].kind != "obj":
                raise compose.AnalysisError("absorption object not recognised: " + X.show(o)[:100])
            n = ps[0].t[0][0][0][0].args[1][0]
            el = self.node(e.args[7])
            h = X.add(self.node(e.args[5]), ite(cmp("lt", TRUE, el, True), X.mul(num(8), X.mul(el, n)), FALSE)) if el is not FALSE else e.args[5]
            self.split(out, "write", e, h, X.mul(num(8), n))
            for k, w in ((1, 16), (2, 8)):          # the work buffers, by the pointer they hold
                self.split(out, "write", e, self.held(e, e.args[k]), X.mul(num(w), n))
        elif nm in ("fftw_execute_dft_r2c", "fftw_execute_dft_c2r"):
            n = arrays.plan_len(self.eng, self.node(e.args[0]), e.name.replace("execute_dft", "plan_dft") + "_1d")
            half = X.mul(num(2 * sz), X.add(X.fn("sdiv", n, num(2)), TRUE))
            real = X.mul(num(sz), n)
            a, b = (real, half) if nm.endswith("r2c") else (half, real)
            self.split(out, "read", e, e.args[1], a)
            self.split(out, "write", e, e.args[2], b)
            if nm.endswith("c2r"):
                self.split(out, "write", e, e.args[1], a)

    def held(self, e, o):
        """the pointer an object holds when effect e happens"""
        kats = tuple(atom("k", x, isint=True, dom=(0, None)) for x in e.loops)

        def f(p):
            return UNDEF if p is BOT else self.eng.addr.node(at(gsa.mark_ptr(atom("ld", p, "ptr", ("v", e.seq, e.uids, kats), isint=True))))
        o = X.strip_bot(ite(AND(self.launch, self.node(e.cond)), self.node(o), UNDEF))
        p = X.apply(f, o)
        if self.before is not None:             # what the caller stored
            p = X.strip_bot(X.Subst(origins(X.atomset(p), self.before)).node(p))
        if p is UNDEF and o is not UNDEF:
            raise compose.AnalysisError(f"the array used by {e.ins} is not known")
        return p

    def split(self, out, kind, e, addr, width):
        if width is None:
            raise compose.AnalysisError(f"access of unknown width ({e.size}) in {e.ins}")
        leafs = {}
        n = X.strip_bot(ite(AND(self.launch, self.node(e.cond)), self.node(addr), UNDEF))
        arrays.collect(n, TRUE, leafs)
        for p, c in leafs.items():
            if p is BOT:
                continue
            a = Access()
            a.kind, a.eff, a.cond, a.width = kind, e, c, width if isinstance(width, X.Node) else num(width)
            a.base, a.off = gsa.base_of(p)
            a.word = p
            out.append(a)

    # -- facts ------------------------------------------------------------------------------------------------------
    def loops(self, e):
        """nodes that are >= 0 in every iteration of the loops of e"""
        out = []
        for la, tc in zip(e.loops, e.tcs):
            k = at(atom("k", la, isint=True, dom=(0, None)))
            tc = self.node(tc)
            if not (tc.q is None and len(tc.leaf.t) == 1 and tc.leaf.t[0][0] and tc.leaf.t[0][0][0][0].kind == "tc"):
                out.append(X.sub(X.sub(tc, k), TRUE))
        return out

    def goes_on(self, e):
        """no loop of e has been left at its head in this iteration"""
        c = TRUE
        for la in e.loops:
            me = atom("self", la.args[0], isint=True, dom=(0, None))
            k = at(atom("k", la, isint=True, dom=(0, None)))
            S = X.Subst({me: k})
            for ish, x in la.args[1]:
                if ish == 0:
                    x = self.node(x)
                    c = AND(c, NOT(S.node(x)))
                    y = sofar(x, me, k)
                    if y is not None:
                        c = AND(c, NOT(y))
        return c

    def prove(self, a, lo, hi):
        """None, or the side that is not proved"""
        ls = self.loops(a.eff)
        off = slices(X.L(a.off))
        goals = [X.sub(off, lo), X.sub(X.sub(hi, off), a.width)]
        rel = set()
        for n in goals + ls:
            for at_ in X.atomset(n):
                rel.add(at_)
        base = AND(a.cond, self.node(a.eff.cond))
        cond = AND(base, AND(self.launch, self.goes_on(a.eff)))
        # tests of quantities connected with the index
        def mk(c, *ps):
            if c is BOT or c is X.ZERO or any(p is BOT for p in ps):
                return UNDEF
            return at(atom("case", *ps))
        ss = self.strides.get(a.base, [])
        cond = connected(cond, goals + ls + ss)
        n = X.apply(mk, cond, *(goals + ls + ss))
        nar = {x: X.L(x.args[1]) for x in X.atomset(n) if x.kind == "fn" and x.args[0] in ("trunc32", "zext32", "sext32", "u32")}
        if nar:                                 # counts are below 2^31
            n = X.Subst(nar).node(n)
        sp = Split(relevant=None if small(n) else rel)
        fail = []

        def leaf(p, f):
            if fail:
                return
            x = p.t[0][0][0][0] if len(p.t) == 1 and p.t[0][0] else None
            if x is None or x.kind != "case":
                return
            g0, g1 = x.args[:2]
            fs = list(f)
            for q in x.args[2:]:
                fs += Fa.derive(q)
            fs += self.facts
            for side, g in (("below", g0), ("above", g1)):
                if Fa.prove_ge0(g, fs, depth=2) or linear.ge0(g, fs) or contradictory(fs):
                    continue
                if follows(g, fs, x.args[2 + len(ls):]) or excluded(fs):
                    continue
                fail.append((side, g, fs))
                return
        sp.walk(n, [], leaf)
        self.cases += sp.count
        return fail[0] if fail else None


def sofar(n, me, k, limit=200):
    """the test n of the iteration me came true in one of the iterations 0 .. k; None when it has no such form"""
    paths = []

    def go(n, cond, lows, ups):
        if len(paths) > limit:
            return
        if n.q is None:
            if n is TRUE:
                paths.append((cond, lows, ups))
            return
        w = sum(c for m, c in n.q.t if m == ((me, 1),))
        if not any(me in (a, *X.atomset(X.L(X.patom(a)))) for m, _ in n.q.t for a, _e in m):
            for i, x in enumerate(n.kids):
                if x is not FALSE:
                    go(x, AND(cond, X.mknode(n.q, n.cuts, [TRUE if j == i else FALSE for j in range(len(n.kids))])), lows, ups)
            return
        rest = X.padd(n.q, X.pscale(X.patom(me), w), -1)
        if w not in (1, -1) or not X.isint_poly(n.q) or any(s for _, s in n.cuts) or any(me in X.atomset(X.L(X.patom(a))) or a is me for m, _ in rest.t for a, _e in m):
            raise ValueError
        for i, x in enumerate(n.kids):
            if x is FALSE:
                continue
            lo = X.padd(X.pconst(math.ceil(n.cuts[i - 1][0])), rest, -1) if i else None
            hi = X.padd(X.pconst(math.ceil(n.cuts[i][0]) - 1), rest, -1) if i < len(n.cuts) else None
            if w < 0:
                lo, hi = (None if hi is None else X.pscale(hi, Q(-1))), (None if lo is None else X.pscale(lo, Q(-1)))
            go(x, cond, lows + ([lo] if lo is not None else []), ups + ([hi] if hi is not None else []))
    try:
        go(n, TRUE, [X.ZERO], [k.leaf])
    except ValueError:
        return None
    if len(paths) > limit:
        return None
    r = FALSE
    for c, lows, ups in paths:
        for lo in dict.fromkeys(lows):
            for hi in dict.fromkeys(ups):
                c = AND(c, cmp("le", X.L(lo), X.L(hi), True))
        r = X.OR(r, c)
    return r


def slices(n):
    """the lengths of the slices a loop cuts M entries into, B at a time, add up to M"""
    R = {}
    for a in X.atomset(n):
        if a.kind != "sum" or a.args[2].q is None or len(a.args[2].kids) != 2 or a.args[0].q is not None:
            continue
        up, q, body = a.args
        u = up.leaf.t[0][0][0][0] if len(up.leaf.t) == 1 and up.leaf.t[0][0] else None
        if u is None or X.patom(u) is not up.leaf or u.kind not in ("k", "tc") or not isinstance(u.args[0], X.Atom):
            continue
        small_, large = body.kids
        if small_.q is not None or large.q is not None or BOT in (small_.leaf, large.leaf):
            continue
        small_, large, t = small_.leaf, large.leaf, body.q
        d = X.padd(small_, large, -1)
        if body.cuts[0] not in ((0, 0), (0, 1), (1, 0)) or not X.isint_poly(t) or not t.t or not d.t:
            continue
        w = d.t[0][1] / t.t[0][1]
        if w <= 0 or X.pscale(t, w) is not d:
            continue
        whole = subst(small_, q, X.ZERO)
        if any(q is b for m, _ in large.t for b, _e in m) or X.padd(whole, X.pmul(X.patom(q), large), -1) is not small_:
            continue
        la = u.args[0]
        k = at(atom("k", la, isint=True, dom=(0, None)))
        S = X.Subst({atom("self", la.args[0], isint=True, dom=(0, None)): k})
        left = X.pscale(X.padd(whole, X.pmul(k.leaf, large), -1), 1 / w)
        ends = [S.node(x) for ish, x in la.args[1]]
        if ends != [cmp("lt", X.L(left), TRUE, True)]:
            continue
        R[a] = X.mul(k, X.L(large)) if u.kind == "k" else ite(cmp("lt", X.L(X.pscale(whole, 1 / w)), TRUE, True), FALSE, X.L(whole))
    return X.Subst(R).node(n) if R else n


def touched(p, out):
    """the quantities a term is about"""
    for m, _ in p.t:
        for a, _e in m:
            if a not in out:
                out.add(a)
                if a.kind == "fn":
                    for x in a.args[1:]:
                        if isinstance(x, X.Poly):
                            touched(x, out)
                        elif isinstance(x, X.Node):
                            for q in X.leaves(x, set()):
                                if q is not BOT:
                                    touched(q, out)
    return out


def diagram(n, seen):
    st = [n]
    while st:
        x = st.pop()
        if x.key not in seen:
            seen[x.key] = x
            if x.q is not None:
                st += x.kids
    return seen


def connected(c, ns):
    """the condition c without the tests of quantities that have nothing to do with the terms ns (a weaker condition)"""
    have = set()
    for n in ns:
        for x in diagram(n, {}).values():
            touched(x.q if x.q is not None else X.ZERO if x.leaf is BOT else x.leaf, have)
    tests = {x.q: touched(x.q, set()) for x in diagram(c, {}).values() if x.q is not None}
    keep = set()
    while True:
        new = [q for q, s in tests.items() if q not in keep and s & have]
        if not new:
            break
        for q in new:
            keep.add(q)
            have |= tests[q]
    memo = {}

    def go(n):
        if n.q is None:
            return n
        r = memo.get(n.key)
        if r is None:
            kids = [go(k) for k in n.kids]
            if n.q in keep:
                r = X.mknode(n.q, n.cuts, kids)
            else:
                r = FALSE
                for k in kids:
                    if k is not UNDEF:
                        r = X.OR(r, k)
            memo[n.key] = r
        return r
    return go(c)


def products(g, fs):
    """facts times the non-negative quantities the goal multiplies their atoms with"""
    pairs = {}
    for m, _ in g.t:
        if sum(e for _, e in m) > 1:
            for a, e in m:
                rest = tuple((b, k - (b is a)) for b, k in m if k - (b is a))
                if all(b.dom is not None and b.dom[0] is not None and b.dom[0] >= 0 and k > 0 for b, k in rest):
                    pairs.setdefault(a, set()).add(rest)
    out = []
    for f in dict.fromkeys(fs):
        rs = set()
        for m, _ in f.t:
            if len(m) == 1 and m[0][1] == 1:
                rs |= pairs.get(m[0][0], set())
        for r in rs:
            out.append(X.pmul(f, X.mkpoly({r: Q(1)})))
    return out[:60]


def follows(g, fs, strides=()):
    """g >= 0 with the products of the facts with the strides and what truncations keep"""
    fs, strict = list(dict.fromkeys(fs)), []
    fs += halves(g, fs)
    g, fs, known = eliminate(g, fs, list(strides))
    if linear.ge0(g, fs) or linear.ge0(g, fs + areas(g, fs, known)):
        return True
    for _ in range(3):
        a, b = rounded(g, fs, strict)
        if not a:
            break
        fs += a
        strict += b
    if linear.ge0(g, fs + Fa.quotients(g) + products(g, fs), strict):
        return True
    # g = s*A + B: at least one whole stride before the end and the rest inside the stride
    for s in sorted({a for m, _ in g.t if len(m) > 1 or m and m[0][1] > 1 for a, e in m if e == 1 and nonneg(a)}, key=lambda a: a.key):
        A = X.mkpoly({tuple(x for x in m if x[0] is not s): c for m, c in g.t if any(a is s for a, _ in m)})
        B = X.mkpoly({m: c for m, c in g.t if not any(a is s for a, _ in m)})
        w = min(abs(c) for _, c in g.t)
        for c in (Q(0), w):
            if linear.ge0(X.padd(A, X.pconst(c), -1), fs, strict) and linear.ge0(X.padd(B, X.pscale(X.patom(s), c)), fs, strict):
                return True
    return False


def nonneg(a):
    return a.dom is not None and a.dom[0] is not None and a.dom[0] >= 0


def eliminate(g, fs, known):
    """equalities between the facts used up: the goal, the facts, and the non-negative quantities known under another name"""
    for _ in range(8):
        have = set(fs)
        pick = None
        for f in fs:
            if X.pscale(f, Q(-1)) in have:
                lin = [(m[0][0], c) for m, c in f.t if len(m) == 1 and m[0][1] == 1]
                lin = [(a, c) for a, c in lin if not any(a in set(X.atomset(X.L(X.patom(b)))) for m, _ in f.t for b, _e in m if b is not a)
                       and sum(1 for m, _ in f.t if any(b is a for b, _e in m)) == 1]
                if lin and len(f.t) > 1:
                    # the one that stands for a product, if any
                    pick = f, max(lin, key=lambda x: (nonneg(x[0]), len(f.t), x[0].key))
                    break
        if pick is None:
            break
        f, (a, c) = pick
        v = X.padd(X.patom(a), X.pscale(f, -1 / c))
        sub = lambda p: subst(p, a, v)
        if nonneg(a):
            known.append(v)
        g, fs, known = sub(g), [h for h in dict.fromkeys(sub(h) for h in fs) if h.t], [sub(h) for h in known]
    return g, fs + known, known


def subst(p, a, v):
    r = X.ZERO
    for m, c in p.t:
        e = next((k for b, k in m if b is a), 0)
        if not e:
            r = X.padd(r, X.mkpoly({m: c}))
        else:
            t = X.mkpoly({tuple(x for x in m if x[0] is not a): c})
            for _ in range(int(e)):
                t = X.pmul(t, v)
            r = X.padd(r, t)
    return r


def areas(g, fs, known):
    """products of facts with non-negative quantities that are not single atoms"""
    have = {m for m, _ in g.t}
    out = []
    for _ in range(2):
        atoms = [X.padd(X.patom(a), X.pconst(a.dom[0]), -1) for a in dict.fromkeys(a for m in have for a, _ in m) if nonneg(a)]
        for k in dict.fromkeys(known):
            if len(k.t) < 2:
                continue
            for f in dict.fromkeys(list(fs) + atoms):
                h = X.pmul(f, k)
                big = [m for m, _ in h.t if len(m) > 1 or m and m[0][1] > 1]
                if big and h not in out and sum(m in have for m in big) * 2 >= len(big):
                    out.append(h)
        have |= {m for h in out for m, _ in h.t}
    return out[:100]


def halves(g, fs):
    """P/c - 1 < P div c <= P/c, for the quotients whose P is not negative"""
    out = []
    for a in sorted({a for f in [g] + fs for m, _ in f.t for a, _e in m if a.kind == "fn" and a.args[0] == "sdiv"}, key=lambda a: a.key):
        _, P, c = a.args
        c = c.const()
        if c is not None and c > 0 and (linear.ge0(P, fs) or linear.ge0(P, fs + products(P, fs))):
            d = X.padd(X.pscale(P, 1 / c), X.patom(a), -1)
            out += [d, X.padd(X.pconst((c - 1) / c), d, -1), X.patom(a)]
    return out


def excluded(fs):
    """the facts exclude each other"""
    r = linear.bound(X.pconst(-1), fs, every=True)
    return r is not None and (r[0] >= 0 or r[0] == -1 and r[1])


def rounded(g, fs, strict):
    """what the truncation to an integer keeps of its argument: facts, and facts that hold strictly"""
    out, st = [], []
    xs = {a for f in [g] + fs for m, _ in f.t for a, _e in m if a.kind == "fn" and a.args[0] == "f2i"}
    for a in sorted(xs, key=lambda a: a.key):
        p, t = a.args[1], X.patom(a)
        d = X.padd(p, t, -1)
        if d in fs or X.pscale(d, Q(-1)) in fs:
            continue
        if linear.ge0(p, fs, strict) or linear.ge0(X.padd(t, X.ONE, -1), fs, strict):
            out += [d, t]                       # 0 <= p - t < 1, t >= 0
            st.append(X.padd(X.ONE, d, -1))
        elif linear.ge0(X.pscale(p, Q(-1)), fs, strict) or linear.ge0(X.padd(X.pscale(t, Q(-1)), X.ONE, -1), fs, strict):
            out += [X.pscale(d, Q(-1)), X.pscale(t, Q(-1))]
            st.append(X.padd(X.ONE, d))
    return out, st


def small(n, limit=60):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        if len(seen) > limit:
            return False
        if x.q is not None:
            st += x.kids
    return True


def quiet(eng, e, state, loops):
    """calls do not change the pointers the addresses are made of"""
    return state


CALC = ("sdiv", "srem", "f2i", "trunc32", "zext32", "sext32")


def variables(p, out, opaque):
    for m, _ in p.t:
        for a, _e in m:
            if a.kind == "fn" and a.args[0] in CALC and all(isinstance(x, X.Poly) for x in a.args[1:]):
                for x in a.args[1:]:
                    variables(x, out, opaque)
            elif a.kind in ("sym", "arg", "k") or a.kind == "ld" and a.args[2] == ():
                out.setdefault(a, None)
            else:
                opaque.append(a)


def worth(p, env):
    r = Q(0)
    for m, c in p.t:
        for a, e in m:
            v = env.get(a)
            if v is None:
                xs = [worth(x, env) for x in a.args[1:]]
                if a.args[0] in ("sdiv", "srem"):
                    q = Q(int(xs[0] / xs[1])) if xs[1] else Q(0)
                    v = q if a.args[0] == "sdiv" else xs[0] - q * xs[1]
                else:
                    v = Q(int(xs[0]))
            if e < 0 and v == 0:
                return Q(10 ** 6)
            c = c * v ** e
        r += c
    return r


def example(g, fs, tries=1000, steps=150):
    """small values of the quantities for which the facts hold and g < 0; None when none is found"""
    import random
    rnd = random.Random(1)
    fs = list(dict.fromkeys(f for f in fs if f.t and f.const() is None))
    vs, opaque = {}, []
    variables(g, vs, opaque)
    if opaque:
        return None
    use = []
    for f in fs:
        o = []
        w = {}
        variables(f, w, o)
        if not o:
            use.append(f)
            vs.update(w)
    vs = list(vs)

    def pick(a):
        lo = a.dom[0] if a.dom is not None and a.dom[0] is not None else -2
        hi = a.dom[1] if a.dom is not None and a.dom[1] is not None else lo + rnd.choice((1, 2, 4, 8))
        v = Q(rnd.randint(int(lo), int(max(lo, hi))))
        return v if a.isint else v + Q(rnd.randint(0, 3), 4)

    def miss(env):
        x = worth(g, env)
        return sum(max(Q(0), -worth(f, env)) for f in use) + (x + 1 if x >= 0 else 0)
    for _ in range(tries):
        env = {a: pick(a) for a in vs}
        m = miss(env)
        for _ in range(steps):
            if m == 0:
                return env
            a = rnd.choice(vs)
            old = env[a]
            env[a] = rnd.choice((old + 1, old - 1, pick(a)))
            if a.dom is not None and a.dom[0] is not None and env[a] < a.dom[0]:
                env[a] = old
                continue
            n = miss(env)
            if n <= m:
                m = n
            else:
                env[a] = old
    return None


def told(g, env):
    """the values of the example that the goal depends on"""
    vs, o = {}, []
    variables(g, vs, o)
    return ", ".join(f"{X.show_atom(a)[:40]}={env[a]}" for a in list(vs)[:8])
