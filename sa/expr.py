"""Canonical value domain of the value-numbering analysis.

Values are interval decision diagrams (IDDs): inner nodes test one integer/real form q against constant
cut points, leaves are polynomials with rational coefficients over interned atoms (Laurent monomials).
Everything is hash-consed and ordered by structural keys, so two values computed from different code
are the same object (or have the same key) exactly when their normal forms agree.

Floating-point is treated as real arithmetic; integers as mathematical integers.
"""
import hashlib
import math
from fractions import Fraction as Q

LIMIT = 6000


class TooBig(Exception):
    pass


# ------------------------------------------------------------------------------------------------
# atoms

class Atom:
    __slots__ = ("kind", "args", "key", "dom", "isint", "__weakref__")

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def _size(x):
    """rough size of a value: simple tests are put near the root of a diagram"""
    if isinstance(x, (Atom, Poly, Node)):
        k = x.key
        return int(k[:5]) if k[0] != "L" else int(k[1:6])
    if isinstance(x, tuple):
        return min(99990, 1 + sum(_size(y) for y in x))
    return 0


def _keyof(x):
    if isinstance(x, (Atom, Poly, Node)):
        return x.key
    if isinstance(x, tuple):
        return "(" + ",".join(_keyof(y) for y in x) + ")"
    return repr(x)


def atom(kind, *args, dom=None, isint=False):
    k = f"{_size(args):05d}" + hashlib.md5((kind + (repr((dom, isint)) if kind == "arg" else "") + "|" + "|".join(_keyof(a) for a in args)).encode()).hexdigest()[:20]
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.key = k
        a.dom = dom
        a.isint = isint
        _atoms[k] = a
    return a


# ------------------------------------------------------------------------------------------------
# polynomials: mono = tuple of (atom, exp) sorted by atom key

class Poly:
    __slots__ = ("t", "key", "_cs", "__weakref__")

    def __repr__(self):
        return show_poly(self)

    # helpers
    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return Q(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def atoms(self):
        for m, _ in self.t:
            for a, _ in m:
                yield a


_polys = {}


def _mkey(m):
    return tuple((a.key, e) for a, e in m)


_fast = {}


def mkpoly(d):
    items = [mc for mc in d.items() if mc[1]]
    fk = frozenset(items)
    p = _fast.get(fk)
    if p is None:
        p = _fast[fk] = _mkpoly(items)
    return p


def _mkpoly(items):
    items.sort(key=lambda mc: _mkey(mc[0]))
    k = hashlib.md5(";".join(",".join(f"{a.key}^{e}" for a, e in m) + "*" + str(c) for m, c in items).encode()
                    ).hexdigest()[:20]
    k = f"{min(99990, sum(1 + sum(int(a.key[:5]) for a, e in m) for m, c in items)):05d}" + k
    p = _polys.get(k)
    if p is None:
        p = Poly()
        p.t = tuple(items)
        p.key = k
        p._cs = None
        _polys[k] = p
    return p


def pconst(c):
    return mkpoly({(): Q(c)})


def patom(a, e=1):
    return mkpoly({((a, e),): Q(1)})


ZERO = pconst(0)
ONE = pconst(1)
BOT = Poly()
BOT.t = ()
BOT.key = "00000BOT"
BOT._cs = None


def padd(a, b, s=1):
    if a is BOT or b is BOT:
        return BOT
    if not a.t and s == 1:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + s * c
    return mkpoly(d)


def pneg(a):
    return pscale(a, -1)


def pscale(a, c):
    if a is BOT:
        return BOT
    return mkpoly({m: k * c for m, k in a.t})


def _mono_mul(m1, m2):
    """-> (mono, extra polys to multiply in)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = []
    for a in list(d):
        e = d[a]
        if a.kind == "fn" and a.args[0] in ("sqrt", "fabs") and abs(e) >= 2:
            P = a.args[1]
            if a.args[0] == "fabs":
                h = (abs(e) // 2) * 2
                x = P
                base = ppow(x, h)
            else:
                h = abs(e) // 2
                base = ppow(P, h)
                h *= 2
            if e < 0:
                base = pinv(base)
            d[a] = e - h if e > 0 else e + h
            extra.append(base)
        elif a.kind == "inv" and e < 0:
            d[a] = 0
            extra.append(ppow(a.args[0], -e))
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].key))
    return m, extra


def pmul(a, b):
    if a is BOT or b is BOT:
        return BOT
    if not a.t or not b.t:
        return ZERO
    ca = a.const()
    if ca is not None:
        return b if ca == 1 else pscale(b, ca)
    cb = b.const()
    if cb is not None:
        return a if cb == 1 else pscale(a, cb)
    if len(a.t) * len(b.t) > LIMIT:
        raise TooBig("poly product")
    # cancel P * inv(P)
    for x, y in ((a, b), (b, a)):
        if len(x.t) > 1 and len(y.t) == 1:
            m = y.t[0][0]
            for at, e in m:
                if at.kind == "inv" and e > 0:
                    p, c, mono = primitive(x)
                    if p is at.args[0]:
                        rest = {tuple((q, f - 1 if q is at else f) for q, f in m if not (q is at and f == 1)): y.t[0][1]}
                        return pmul(pmul(pconst(c), mkpoly({mono: Q(1)})), mkpoly(rest))
    d = {}
    more = []
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m, ex = _mono_mul(m1, m2)
            if ex:
                q = mkpoly({m: c1 * c2})
                for x in ex:
                    q = pmul(q, x)
                more.append(q)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = mkpoly(d)
    for q in more:
        r = padd(r, q)
    return r


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def primitive(p):
    """p (multi-term) = c * mono * prim, prim canonical: no common monomial, leading coefficient 1."""
    ms = [dict(m) for m, _ in p.t]
    common = {}
    for a in ms[0]:
        es = [m.get(a, 0) for m in ms]
        if all(e > 0 for e in es):
            common[a] = min(es)
    neg = {}
    for m in ms:
        for a, e in m.items():
            if e < 0 and a.kind != "inv":
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        common[a] = min(e, common.get(a, 0)) if a not in common else min(e, common[a])
    mono = tuple(sorted(common.items(), key=lambda ae: ae[0].key))
    inv = tuple((a, -e) for a, e in mono)
    d = {}
    for m, c in p.t:
        mm, ex = _mono_mul(m, inv)
        d[mm] = d.get(mm, 0) + c
        if ex:
            # irregular: give up on factoring the monomial
            mono = ()
            d = dict(p.t)
            break
    q = mkpoly(d)
    lead = q.t[0][1]
    # choose the first non-constant term's coefficient as the leading one
    for m, c in q.t:
        if m:
            lead = c
            break
    return pscale(q, 1 / lead), lead, mono


def pinv(p):
    if p is BOT:
        return BOT
    if not p.t:
        return patom(atom("inv", ZERO))
    if len(p.t) == 1:
        m, c = p.t[0]
        r = pconst(1 / c)
        for a, e in m:
            if a.kind == "inv":
                r = pmul(r, ppow(a.args[0], e))
            else:
                r = pmul(r, mkpoly({((a, -e),): Q(1)}))
        return r
    prim, c, mono = primitive(p)
    r = patom(atom("inv", prim))
    if mono:
        r = pmul(r, mkpoly({tuple((a, -e) for a, e in mono): Q(1)}))
    return pscale(r, 1 / c)


def pfloat(v, single=False):
    if v != v:
        return patom(atom("sym", "nan"))
    if v in (math.inf, -math.inf):
        return patom(atom("sym", "inf" if v > 0 else "-inf"))
    if v == 0:
        return ZERO
    if single:
        import struct
        s = f"{v:.9g}"
        for prec in range(1, 10):
            t = f"{v:.{prec}g}"
            if struct.unpack("f", struct.pack("f", float(t)))[0] == v:
                s = t
                break
    else:
        s = repr(v)
    tol = 2e-7 if single else 4e-16
    if len(s) > 7:
        r = v / math.pi
        f = Q(r).limit_denominator(720)
        if f and abs(f.numerator) <= 720 and abs(float(f) - r) <= tol * abs(r):
            return pscale(patom(PI), f)
        f = Q(v).limit_denominator(1000)
        if f and abs(float(f) - v) <= tol / 4 * abs(v):
            return pconst(f)
    return pconst(Q(s))


# ------------------------------------------------------------------------------------------------
# IDD nodes

class Node:
    """leaf: q is None, leaf poly in .leaf; inner: q Poly, cuts tuple, kids tuple (len = len(cuts)+1)."""
    __slots__ = ("q", "cuts", "kids", "leaf", "key", "size", "__weakref__")

    def __repr__(self):
        return show(self)

    def is_leaf(self):
        return self.q is None


_nodes = {}
PI = atom("sym", "pi")


def L(p):
    k = "L" + p.key
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.q = None
        n.cuts = n.kids = None
        n.leaf = p
        n.key = k
        n.size = 1
        _nodes[k] = n
    return n


def _ratio(d, q):
    m0, c0 = q.t[0]
    for m, c in d.t:
        if m == m0:
            return c / c0
    return None


def mknode(q, cuts, kids):
    # merge equal neighbours
    c2, k2 = [], [kids[0]]
    for c, k in zip(cuts, kids[1:]):
        if k is k2[-1]:
            continue
        c2.append(c)
        k2.append(k)
    if not c2:
        return k2[0]
    # at a cut where both sides agree the side the cut point belongs to is immaterial
    for n, (cv, side) in enumerate(c2):
        if side == 1 and k2[n].q is None and k2[n + 1].q is None and k2[n].leaf is not BOT and k2[n + 1].leaf is not BOT \
                and not (n and c2[n - 1] == (cv, 0)):
            d = padd(k2[n].leaf, k2[n + 1].leaf, -1)
            if len(d.t) == len(q.t) + (1 if cv else 0):
                f = _ratio(d, q)
                if f is not None and padd(d, pscale(padd(q, pconst(cv), -1), f), -1) is ZERO:
                    c2[n] = (cv, 0)
    h = hashlib.md5((q.key + "|" + repr(c2) + "|" + "|".join(k.key for k in k2)).encode()).hexdigest()[:20]
    h = f"{min(99990, int(q.key[:5]) + sum(_size(k) for k in k2)):05d}" + h
    n = _nodes.get(h)
    if n is None:
        n = Node()
        n.q = q
        n.cuts = tuple(c2)
        n.kids = tuple(k2)
        n.leaf = None
        n.key = h
        n.size = 1
        _nodes[h] = n
    return n


TRUE = L(ONE)
FALSE = L(ZERO)
UNDEF = L(BOT)


def merge_cuts(a, b):
    return tuple(sorted(set(a) | set(b)))


def pick(n, q, cut_lo):
    """child of n in the interval just at/after cut_lo (None = -inf) when n tests q, else n"""
    if n.q is not q:
        return n
    i = 0
    if cut_lo is not None:
        while i < len(n.cuts) and n.cuts[i] <= cut_lo:
            i += 1
    return n.kids[i]


def apply(f, *ns, memo=None):
    """Lift a leaf function over decision diagrams."""
    if memo is None:
        memo = {}
    key = ns
    r = memo.get(key)
    if r is not None:
        return r
    q = None
    for n in ns:
        if n.q is not None and (q is None or n.q.key < q.key):
            q = n.q
    if q is None:
        r = f(*[n.leaf for n in ns])
    else:
        cuts = ()
        for n in ns:
            if n.q is q:
                cuts = merge_cuts(cuts, n.cuts)
        kids = []
        for lo in (None,) + cuts:
            kids.append(apply(f, *[pick(n, q, lo) for n in ns], memo=memo))
        # an opaque leaf function may itself return a node with smaller tests: rebuild through ite
        if all(k.q is None or k.q.key > q.key for k in kids):
            r = mknode(q, cuts, kids)
        else:
            r = _rebuild(q, cuts, kids)
        if len(memo) > LIMIT * 5 and memo is not _addmemo and memo is not _submemo and memo is not _mulmemo:
            raise TooBig("apply")
    memo[key] = r
    return r


def _rebuild(q, cuts, kids):
    """ordered construction when a child's top test precedes q"""
    base = mknode(q, cuts, [L(pconst(i)) for i in range(len(kids))])
    r = kids[-1]
    for i in range(len(kids) - 1):
        sel = apply(lambda x, i=i: TRUE if x.const() == i else FALSE, base)
        r = ite(sel, kids[i], r)
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _ite(c, a, b, _itememo)


_itememo = {}


def _ite(c, a, b, memo):
    if c.q is None:
        cc = c.leaf
        if cc is BOT:
            return UNDEF
        v = cc.const()
        if v is None:
            # opaque boolean leaf: turn it into a test
            return _ite(truth(c), a, b, memo)
        return a if v != 0 else b
    if a is b:
        return a
    key = (c, a, b)
    r = memo.get(key)
    if r is not None:
        return r
    q = c.q
    for n in (a, b):
        if n.q is not None and n.q.key < q.key:
            q = n.q
    cuts = ()
    for n in (c, a, b):
        if n.q is q:
            cuts = merge_cuts(cuts, n.cuts)
    kids = [_ite(pick(c, q, lo), pick(a, q, lo), pick(b, q, lo), memo) for lo in (None,) + cuts]
    if all(k.q is None or k.q.key > q.key for k in kids):
        r = mknode(q, cuts, kids)
    else:
        r = _rebuild(q, cuts, kids)
    memo[key] = r
    return r


def strip_bot(n, memo=None):
    """drop undefined leaves: merge their interval into a defined neighbour"""
    if n.q is None:
        return n
    if memo is None:
        memo = {}
    r = memo.get(n.key)
    if r is not None:
        return r
    kids = [strip_bot(k, memo) for k in n.kids]
    keep = [(i, k) for i, k in enumerate(kids) if k is not UNDEF]
    if not keep:
        r = UNDEF
    elif len(keep) == len(kids):
        r = mknode(n.q, n.cuts, kids)
    else:
        out = []
        cur = keep[0][1]
        for i, k in enumerate(kids):
            if k is not UNDEF:
                cur = k
            out.append(cur)
        r = mknode(n.q, n.cuts, out)
    memo[n.key] = r
    return r


def truth(n):
    """n != 0 as a 0/1 diagram"""
    return cmp("ne", n, FALSE, True)


def AND(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def OR(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def normq(p):
    """p = s*(q + c): q canonical without constant term; returns (q, c, s) with s=+-1 scale folded to >0/<0"""
    c = Q(0)
    d = {}
    for m, k in p.t:
        if m == ():
            c = k
        else:
            d[m] = k
    q = mkpoly(d)
    lead = q.t[0][1]
    return pscale(q, 1 / lead), c / lead, lead


def isint_poly(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.isint or e < 0:
                return False
    return True


NONNULL = {"heap", "obj", "alloca", "glob"}


def _nonnull(p):
    """+1/-1 when p is (plus/minus) the address of an object plus a constant"""
    base = 0
    for m, c in p.t:
        if m == ():
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in NONNULL and abs(c) == 1:
            base = int(c)
        else:
            return 0
    return base


def _cmp_leaf(pred, a, b, is_int):
    if a is BOT or b is BOT:
        return UNDEF
    p = padd(a, b, -1)
    c = p.const()
    if c is not None:
        r = {"eq": c == 0, "ne": c != 0, "gt": c > 0, "ge": c >= 0, "lt": c < 0, "le": c <= 0}[pred]
        return TRUE if r else FALSE
    if len(p.t) <= 2:
        nn = _nonnull(p)
        if nn:
            if nn < 0:
                pred = {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}.get(pred, pred)
            return TRUE if pred in ("gt", "ge", "ne") else FALSE
    q, k, lead = normq(p)
    # lead*(q + k) pred 0
    if lead < 0:
        pred = {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}.get(pred, pred)
    v = -k  # q pred v
    dom = None
    if len(q.t) == 1 and len(q.t[0][0]) == 1 and q.t[0][0][0][1] == 1:
        dom = q.t[0][0][0][0].dom
    if is_int:
        # D*q is an integer
        D = 1
        for _, cf in q.t:
            D = D * cf.denominator // math.gcd(D, cf.denominator)
        if abs(lead) == 1 or isint_poly(pscale(q, Q(D))):
            fl = math.floor(v * D)
            ce = math.ceil(v * D)
            if pred == "gt":
                cuts, kids = [(fl + 1, 0)], [FALSE, TRUE]
            elif pred == "ge":
                cuts, kids = [(ce, 0)], [FALSE, TRUE]
            elif pred == "lt":
                cuts, kids = [(ce, 0)], [TRUE, FALSE]
            elif pred == "le":
                cuts, kids = [(fl + 1, 0)], [TRUE, FALSE]
            elif pred == "eq":
                if fl != ce:
                    return FALSE
                cuts, kids = [(fl, 0), (fl + 1, 0)], [FALSE, TRUE, FALSE]
            else:
                if fl != ce:
                    return TRUE
                cuts, kids = [(fl, 0), (fl + 1, 0)], [TRUE, FALSE, TRUE]
            if dom is not None:
                lo, hi = dom
                cs, ks = [], [kids[0]]
                for cc, kk in zip(cuts, kids[1:]):
                    if lo is not None and cc[0] <= lo:
                        ks[-1] = kk
                        continue
                    if hi is not None and cc[0] > hi:
                        break
                    cs.append(cc)
                    ks.append(kk)
                cuts, kids = cs, ks
            if D == 1 and len(q.t) == 1 and len(q.t[0][0]) == 1 and q.t[0][0][0][1] == 1:
                r = _cmp_quot(q.t[0][0][0][0], cuts, kids)
                if r is not None:
                    return r
            cuts = [(Q(cc, D), s) for cc, s in cuts]
            return mknode(q, cuts, kids)
    v = Q(v)
    if dom is not None and dom[0] is not None and not is_int:
        lo = dom[0]
        if pred in ("ge",) and v <= lo:
            return TRUE
        if pred == "lt" and v <= lo:
            return FALSE
    if pred == "gt":
        return mknode(q, [(v, 1)], [FALSE, TRUE])
    if pred == "ge":
        return mknode(q, [(v, 0)], [FALSE, TRUE])
    if pred == "lt":
        return mknode(q, [(v, 0)], [TRUE, FALSE])
    if pred == "le":
        return mknode(q, [(v, 1)], [TRUE, FALSE])
    if pred == "eq":
        return mknode(q, [(v, 0), (v, 1)], [FALSE, TRUE, FALSE])
    return mknode(q, [(v, 0), (v, 1)], [TRUE, FALSE, TRUE])


def _cmp_quot(a, cuts, kids):
    """tests on a quotient p/c (towards zero, c > 0) are tests on p"""
    if a.kind != "fn" or a.args[0] != "sdiv":
        return None
    c = a.args[2].const()
    if c is None or c < 2 or not cuts:
        return None
    p = L(a.args[1])
    r = kids[-1]
    for (v, _), k in zip(reversed(cuts), reversed(kids[:-1])):
        t = c * v if v >= 1 else c * (v - 1) + 1
        r = ite(cmp("lt", p, num(t), True), k, r)
    return r


def lower(p):
    """a lower bound of an integer/real polynomial from the domains of its atoms, or None"""
    s = Q(0)
    for m, c in p.t:
        if not m:
            s += c
            continue
        lo = Q(1)
        for a, e in m:
            d = a.dom
            if d is None or d[0] is None or d[0] < 0:
                if e % 2 == 0 and e > 0 and c > 0:
                    lo *= 0
                    continue
                return None
            if e < 0:
                lo *= 0
            else:
                lo *= Q(d[0]) ** e
        if c < 0:
            hi = Q(1)
            for a, e in m:
                d = a.dom
                if d is None or d[1] is None or e < 0:
                    return None
                hi *= Q(d[1]) ** e
            s += c * hi
        else:
            s += c * lo
    return s


def cmp(pred, a, b, is_int):
    return apply(lambda x, y: _cmp_leaf(pred, x, y, is_int), a, b)


# lifted arithmetic ------------------------------------------------------------------------------

_addmemo, _submemo, _mulmemo = {}, {}, {}


def add(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return apply(_leafadd, a, b, memo=_addmemo)


def sub(a, b):
    return apply(_leafsub, a, b, memo=_submemo)


def mul(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return apply(_leafmul, a, b, memo=_mulmemo)


def _leafadd(x, y):
    return L(padd(x, y))


def _leafsub(x, y):
    return L(padd(x, y, -1))


def _leafmul(x, y):
    return L(pmul(x, y))


def div(a, b):
    return apply(lambda x, y: L(pmul(x, pinv(y))), a, b)


def neg(a):
    return apply(lambda x: L(pneg(x)), a)


def num(c):
    return L(pconst(c))


def at(a):
    return L(patom(a))


EVEN = {"cos", "cosh", "fabs"}
ODD = {"sin", "tan", "atan", "asin", "sinh", "tanh", "rint", "f2i", "round", "trunc"}
INTFN = {"f2i", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "lshr", "ashr", "trunc32", "trunc8", "trunc16", "bool",
         "ctlz"}


def _square_content(p):
    """largest rational square dividing the content"""
    cs = [c for _, c in p.t]
    n = 0
    for c in cs:
        n = math.gcd(n, abs(c.numerator))
    d = 1
    for c in cs:
        d = d * c.denominator // math.gcd(d, c.denominator)

    def sq(x):
        r = 1
        f = 2
        while f * f <= x and f < 2000:
            while x % (f * f) == 0:
                x //= f * f
                r *= f
            f += 1
        s = math.isqrt(x)
        if s * s == x:
            r *= s
        return r
    num_ = sq(n)
    den = 1
    # make the denominator a square: multiply through
    s = math.isqrt(d)
    den = s if s * s == d else 1
    return Q(num_, den)


def pfn(name, *args):
    if any(a is BOT for a in args):
        return BOT
    if name == "pow":
        c = args[1].const()
        if c is not None:
            if c.denominator == 1 and 0 <= c <= 8:
                return ppow(args[0], int(c))
            if c.denominator == 1 and -8 <= c < 0:
                return pinv(ppow(args[0], int(-c)))
            if c == Q(1, 2):
                return pfn("sqrt", args[0])
    if name in ("rint", "nearbyint", "roundeven"):
        name = "rint"
    if name in ("lrint", "llrint"):
        return pfn("f2i", pfn("rint", args[0]))
    if name in ("lround", "llround"):
        return pfn("f2i", pfn("round", args[0]))
    if len(args) == 1:
        p = args[0]
        c = p.const()
        if name == "trunc32" and len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
            d = p.t[0][0][0][0].dom
            if d is not None and None not in d and p.t[0][0][0][0].isint and -2**31 <= d[0] and d[1] < 2**31:
                return p
        if name == "bool" and len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][0].dom == (0, 1):
            return p
        if c is not None:
            if name == "fabs":
                return pconst(abs(c))
            if name == "f2i":
                return pconst(math.trunc(c))
            if name == "floor":
                return pconst(math.floor(c))
            if name == "ceil":
                return pconst(math.ceil(c))
            if name == "rint":
                return pconst(round(c))
            if name == "sqrt" and c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return pconst(Q(n, d))
            if name in ("cos", "cosh", "exp") and c == 0:
                return ONE
            if name in ("sin", "tan", "atan", "asin", "sinh", "tanh") and c == 0:
                return ZERO
            if name == "acos" and c == 1:
                return ZERO
            if name in ("trunc32",) and c.denominator == 1 and -2**31 <= c < 2**31:
                return p
            if name == "bool":
                return pconst(1 if int(c) & 1 else 0)
        if name in ("f2i", "rint", "floor", "ceil", "round", "trunc") and isint_poly(p):
            return p
        if name in EVEN or name in ODD:
            lead = None
            for m, cc in p.t:
                if m:
                    lead = cc
                    break
            if lead is not None and lead < 0:
                r = pfn(name, pneg(p))
                return r if name in EVEN else pneg(r)
        if name == "sqrt" and p.t:
            s = _square_content(p)
            if s != 1:
                return pscale(pfn("sqrt", pscale(p, 1 / (s * s))), s)
            # sqrt of a perfect-square monomial
            if len(p.t) == 1:
                m, cc = p.t[0]
                if cc == 1 and m and all(e % 2 == 0 for _, e in m):
                    return pfn("fabs", mkpoly({tuple((a, e // 2) for a, e in m): Q(1)}))
        if name == "fabs" and len(p.t) == 1:
            # constants out of |c*x|
            m, cc = p.t[0]
            if abs(cc) != 1:
                return pscale(pfn("fabs", mkpoly({m: Q(1)})), abs(cc))
            if len(m) == 1 and m[0][0].kind == "fn" and m[0][0].args[0] in ("sqrt", "fabs", "exp"):
                return p
        elif name == "fabs":
            lead = None
            for m, cc in p.t:
                if m:
                    lead = cc
                    break
            if lead != 1:
                return pscale(pfn("fabs", pscale(p, 1 / lead)), abs(lead))
    if name in ("sdiv", "udiv"):
        c = args[1].const()
        if c is not None and c != 0:
            if c == 1:
                return args[0]
            if all((k / c).denominator == 1 for _, k in args[0].t):
                return pscale(args[0], 1 / c)
            c0 = args[0].const()
            if c0 is None and c > 1 and c.denominator == 1 and isint_poly(args[0]):
                # whole multiples come out of a division of something non-negative
                whole, rest = {}, {}
                for m, k in args[0].t:
                    t = k // c if not m else Q(int(k / c))
                    if t:
                        whole[m] = Q(t)
                    if k - t * c:
                        rest[m] = k - t * c
                if whole:
                    rp = mkpoly(rest)
                    l1, l2 = lower(args[0]), lower(rp)
                    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
                        return padd(mkpoly(whole), _fnleaf("sdiv", rp, args[1]).leaf)
            if c0 is not None:
                qv = abs(int(c0)) // abs(int(c))
                return pconst(qv if (c0 > 0) == (c > 0) else -qv)
    if name in ("srem", "urem"):
        c, c0 = args[1].const(), args[0].const()
        if c and c0 is not None:
            return pconst(int(math.fmod(int(c0), int(c))))
    if name == "and":
        c, c0 = args[1].const(), args[0].const()
        if c is not None and c0 is not None:
            return pconst(int(c0) & int(c))
    if name in ("and", "or", "xor", "fmin", "fmax", "hypot"):
        args = tuple(sorted(args, key=lambda p: p.key))
    dom = None
    if name == "sdiv":
        c, lo = args[1].const(), lower(args[0])
        if c is not None and c > 0 and lo is not None and lo >= 0:
            dom = (lo // c, None)
        elif c is None and lo is not None and lo >= 0:
            l1, l2 = lower(args[1]), lower(padd(args[0], args[1], -1))
            if l1 is not None and l1 >= 1:
                dom = (1 if l2 is not None and l2 >= 0 else 0, None)
    if name in ("sqrt", "fabs", "exp"):
        dom = (0, None)
    if name == "bool":
        dom = (0, 1)
    return patom(atom("fn", name, *args, dom=dom, isint=name in INTFN))


def _fnleaf(name, *xs):
    if len(xs) == 1 and xs[0] is not BOT:
        p = xs[0]
        if name == "fabs":
            return _fabs(p)
        if name == "sqrt" and p.t:
            s = _square_content(p)
            if s != 1:
                return apply(lambda y: L(pscale(y, s)), _fnleaf("sqrt", pscale(p, 1 / (s * s))))
            if len(p.t) == 1:
                m, cc = p.t[0]
                if cc == 1 and m and all(e % 2 == 0 for _, e in m):
                    return _fabs(mkpoly({tuple((a, e // 2) for a, e in m): Q(1)}))
        if name == "log" and len(p.t) == 1 and p.t[0][1] > 0:
            # logarithm of a product of positive factors
            m, cc = p.t[0]
            d = {}
            for v, s in ((cc.numerator, 1), (cc.denominator, -1)):
                if v != 1:
                    d[((atom("fn", "log", pconst(v)), 1),)] = Q(s)
            r = mkpoly(d)
            for a, e in m:
                if a.kind == "fn" and a.args[0] == "exp":
                    r = padd(r, pscale(a.args[1], e))
                else:
                    r = padd(r, pscale(patom(atom("fn", "log", patom(a))), e))
            return L(r)
    return L(pfn(name, *xs))


def _fabs(p):
    c = p.const()
    if c is not None:
        return L(pconst(abs(c)))
    if _nonneg(p):
        return L(p)
    return ite(_cmp_leaf("ge", p, ZERO, False), L(p), L(pneg(p)))


def _nonneg(p):
    return all(c >= 0 and all(a.dom is not None and a.dom[0] is not None and a.dom[0] >= 0 or e % 2 == 0 for a, e in m)
               for m, c in p.t)


def fn(name, *args):
    return apply(lambda *xs: _fnleaf(name, *xs), *args)


# substitution -----------------------------------------------------------------------------------

class Subst:
    """atoms -> nodes, rebuilding through the algebra"""

    def __init__(self, m, load=None):
        self.m = {a.key: n for a, n in m.items()}
        self.ma = {}
        self.mp = {}
        self.mn = {}
        self.load = load
        self._touch = {}
        self._values = None

    def values(self):
        """what the substituted values may bring in"""
        if self._values is None:
            n = tmplevel(tuple(self.m.values()))
            self._values = (atom("tmp", n, isint=True, dom=(0, None)),) if n else ()
        return self._values

    def touches_atom(self, a):
        r = self._touch.get(a.key)
        if r is None:
            if a.key in self.m:
                r = True
            else:
                r = False
                self._touch[a.key] = False
                r = any(self.touches(x) for x in a.args)
            self._touch[a.key] = r
        return r

    def touches(self, x):
        if isinstance(x, Atom):
            return self.touches_atom(x)
        if isinstance(x, Poly):
            k = "P" + x.key
            r = self._touch.get(k)
            if r is None:
                r = any(self.touches_atom(a) for a in x.atoms())
                self._touch[k] = r
            return r
        if isinstance(x, Node):
            k = "N" + x.key
            r = self._touch.get(k)
            if r is None:
                if x.q is None:
                    r = self.touches(x.leaf)
                else:
                    r = self.touches(x.q) or any(self.touches(c) for c in x.kids)
                self._touch[k] = r
            return r
        if isinstance(x, tuple):
            return any(self.touches(y) for y in x)
        return False

    def mapany(self, x):
        if isinstance(x, Atom):
            if not self.touches_atom(x):
                return x
            n = self.atom(x)
            if n.q is None and len(n.leaf.t) == 1 and n.leaf.t[0][1] == 1 and len(n.leaf.t[0][0]) == 1 \
                    and n.leaf.t[0][0][0][1] == 1:
                return n.leaf.t[0][0][0][0]
            return n
        if isinstance(x, Node):
            return self.node(x)
        if isinstance(x, Poly):
            n = self.poly(x)
            return n.leaf if n.q is None else n
        if isinstance(x, tuple):
            return tuple(self.mapany(y) for y in x)
        return x

    def atom(self, a):
        r = self.ma.get(a.key)
        if r is not None:
            return r
        v = self.m.get(a.key)
        if v is not None:
            r = v
        elif not self.touches_atom(a):
            r = at(a)
        elif a.kind == "fn":
            r = fn(a.args[0], *[self.poly(x) for x in a.args[1:]])
        elif a.kind == "inv":
            r = apply(lambda x: L(pinv(x)), self.poly(a.args[0]))
        elif a.kind == "ld":
            # load / call result: args are (tag..., polys...)
            ns = [self.poly(x) if isinstance(x, Poly) else None for x in a.args]
            idx = [i for i, n in enumerate(ns) if n is not None]
            def mk(*ps):
                args = list(a.args)
                for i, p in zip(idx, ps):
                    if p is BOT:
                        return UNDEF
                    args[i] = p
                args = [self.mapany(x) if i not in idx else x for i, x in enumerate(args)]
                if a.kind == "ld" and self.load is not None:
                    v = self.load(args)
                    if v is not None:
                        return v
                return at(atom(a.kind, *args, dom=a.dom, isint=a.isint))
            r = apply(mk, *[ns[i] for i in idx])
        elif a.kind == "sum":
            u, q, body = a.args
            t = tmpvar(body, self.values())
            r = mksum(self.node(u), t, self.node(rename(body, q, t)), a.isint)
        elif a.kind == "lam":
            q, facts, body = a.args
            t = tmpvar(facts, body, self.values())
            fs = [self.node(rename(L(f), q, t)) for f in facts]
            r = mklam(t, [f.leaf for f in fs if f.q is None and f.leaf is not BOT], self.node(rename(body, q, t)))
        elif a.kind in ("r2c", "c2r"):
            r = apply(lambda *ps: rebuilt(a, ps), *[self.poly(x) for x in a.args if isinstance(x, Poly)])
        elif a.kind in ("mu", "mux"):
            r = mkmu(atom(a.kind, *[self.mapany(x) for x in a.args], dom=a.dom, isint=a.isint))
        else:
            r = at(atom(a.kind, *[self.mapany(x) for x in a.args], dom=a.dom, isint=a.isint))
        self.ma[a.key] = r
        return r

    def poly(self, p):
        if p is BOT:
            return UNDEF
        r = self.mp.get(p.key)
        if r is not None:
            return r
        if not self.touches(p):
            r = L(p)
        else:
            r = FALSE
            still = {}
            for m, c in p.t:
                xs, rest = [], []
                for a, e in m:
                    (xs if self.touches_atom(a) else rest).append((a, e))
                if not xs:
                    still[m] = c
                    continue
                t = L(mkpoly({tuple(rest): c}))
                for a, e in xs:
                    x = self.atom(a)
                    if e < 0:
                        x = apply(lambda y: L(pinv(y)), x)
                    for _ in range(abs(e)):
                        t = mul(t, x)
                r = add(r, t)
            if still:
                r = add(r, L(mkpoly(still)))
        self.mp[p.key] = r
        return r

    def node(self, n):
        if n.q is None:
            return self.poly(n.leaf)
        r = self.mn.get(n.key)
        if r is not None:
            return r
        if not self.touches(n):
            r = n
        else:
            kids = [self.node(k) for k in n.kids]
            qn = self.poly(n.q)
            is_int = all(s == 0 for _, s in n.cuts) and isint_poly(n.q)
            r = kids[-1]
            for i in range(len(n.cuts) - 1, -1, -1):
                v, s = n.cuts[i]
                # below cut i -> kids[i]
                c = cmp("lt" if s == 0 else "le", qn, num(v), is_int)
                r = ite(c, kids[i], r)
        self.mn[n.key] = r
        return r


def mksum(upper, var, d, isint=False, inner=False):
    """sum of d over 0 <= var < upper, linear parts and tests that do not depend on var pulled out.
    The bound variable is named by nesting height, so equal sums are the same atom."""
    if upper.q is not None:
        return apply(lambda u: UNDEF if u is BOT else mksum(L(u), var, d, isint), upper)
    c = None if upper.leaf is BOT else upper.leaf.const()
    if c is not None and c.denominator == 1 and 0 < c <= 8:
        r = FALSE
        for k in range(int(c)):
            r = add(r, subst(d, {var: num(k)}))
        return r
    if not inner and d.q is not None and upper.leaf is not BOT:
        from .facts import Pruner
        d = strip_bot(Pruner([padd(padd(upper.leaf, patom(var), -1), ONE, -1)]).node(d))
    if d.q is None:
        if d.leaf is BOT:
            return UNDEF
        r = FALSE
        for m, c in d.leaf.t:
            invm, varm = [], []
            for a, e in m:
                (varm if mentions(a, var) else invm).append((a, e))
            s = _sumatom(upper, var, L(mkpoly({tuple(varm): Q(1)})), isint) if varm else upper
            r = add(r, mul(L(mkpoly({tuple(invm): c})), s))
        return r
    if not mentions(d.q, var):
        kids = [mksum(upper, var, c, isint, True) for c in d.kids]
        if all(c.q is None or c.q.key > d.q.key for c in kids):
            return mknode(d.q, d.cuts, kids)
        return _rebuild(d.q, d.cuts, kids)
    ps = [p for p in leaves(d, set()) if p is not BOT and p.t]
    if len(ps) == 1 and ps[0] != ONE and not mentions(ps[0], var):      # the same value wherever it is not 0
        one = apply(lambda x: L(x) if x is BOT or not x.t else TRUE, d)
        return mul(_sumatom(upper, var, one, isint), L(ps[0]))
    return _sumatom(upper, var, d, isint)


def polyratio(p, s):
    """the number f with p == f*s, or None"""
    if p is BOT or not s.t or not p.t or len(p.t) != len(s.t):
        return None
    f = dict(p.t).get(s.t[0][0])
    if f is None:
        return None
    f = f / s.t[0][1]
    return f if p == pscale(s, f) else None


def _blocks(upper, var, d):
    """sum over the blocks of size s of 0 .. N-1 of the block's extent (s, the last one what is left): N"""
    if upper.q is not None or len(upper.leaf.t) != 1 or d.q is None or len(d.kids) != 2 or any(k.q is not None for k in d.kids):
        return None
    (m, c), = upper.leaf.t
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "fn" or m[0][0].args[0] != "sdiv":
        return None
    _, P, s = m[0][0].args
    n = padd(padd(P, s, -1), ONE)
    ks = pmul(s, patom(var))
    left = padd(n, ks, -1)
    lo = lower(n)
    if lo is None or lo < 0:
        return None
    # the switch may be at "left > s" or "left >= s"
    for full, part, test in ((0, 1, padd(s, left, -1)), (1, 0, padd(left, s, -1))):
        f = polyratio(d.kids[full].leaf, s)
        if f is not None and d.kids[part].leaf == pscale(left, f):
            for v in (0, 1):
                want = cmp("lt", L(test), num(v), True)
                if want.q is not None and want.q == d.q and want.cuts == d.cuts:
                    return L(pscale(n, f))
    return None


def _sumatom(upper, var, d, isint):
    if upper is FALSE:
        return FALSE
    r = _blocks(upper, var, d)
    if r is not None:
        return r
    lvl = 1 + qlevel(d)
    q = atom("q", lvl, isint=True, dom=(0, None))
    return at(atom("sum", upper, q, rename(d, var, q), isint=isint))


def rebuilt(a, ps):
    """atom a with its polynomial arguments replaced"""
    if any(p is BOT for p in ps):
        return UNDEF
    it = iter(ps)
    return at(atom(a.kind, *[next(it) if isinstance(x, Poly) else x for x in a.args], dom=a.dom, isint=a.isint))


_unres = {}


def unresolved(n):
    """does n still contain loads to be resolved against the array contents"""
    def has(x):
        if isinstance(x, Atom):
            r = _unres.get(x.key)
            if r is None:
                if x.kind == "ld" and x.args[2][:1] == ("v",):
                    r = True
                else:
                    _unres[x.key] = False
                    r = any(has(y) for y in x.args)
                _unres[x.key] = r
            return r
        if isinstance(x, Poly):
            return any(has(a) for m, _ in x.t for a, _ in m)
        if isinstance(x, Node):
            r = _unres.get(x.key)
            if r is None:
                if x.q is None:
                    r = x.leaf is not BOT and has(x.leaf)
                else:
                    r = has(x.q) or any(has(y) for y in x.kids)
                _unres[x.key] = r
            return r
        if isinstance(x, tuple):
            return any(has(y) for y in x)
        return False
    return has(n)


def mklam(var, facts, body):
    """the function var -> body on the range where the facts (polynomials) are >= 0"""
    from .facts import Pruner
    body = strip_bot(Pruner(facts).node(body))
    for f in facts:
        if pneg(f) in facts and not unresolved(body):
            # an equation: eliminate one atom of it
            best = None
            for m, c in f.t:
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0] is not var and m[0][0].isint and m[0][0].kind != "fn":
                    if best is None or m[0][0].key < best[0].key:
                        best = (m[0][0], c)
            if best:
                a, c = best
                v = pscale(padd(f, pscale(patom(a), c), -1), -c)
                body = subst(body, {a: L(v)})
                if a.dom is not None and a.dom[0] is not None:
                    body = strip_bot(Pruner([padd(v, pconst(a.dom[0]), -1)]).node(body))
            break
    g = free_test(body, lambda x: mentions(x, var))
    if g is not None and not unresolved(body):         # decided outside
        return _rebuild(g.q, g.cuts, [mklam(var, facts, restrict(body, g, i)) for i in range(len(g.kids))])
    q = atom("q", 1 + max([qlevel(body)] + [qlevel(f) for f in facts]), isint=True, dom=(0, None))
    fs = tuple(sorted((rename(L(f), var, q).leaf for f in facts), key=lambda p: p.key))
    return at(atom("lam", q, fs, rename(body, var, q)))


def free_test(n, bound):
    """a test in n of something that bound() does not hold for"""
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.q is None or x.key in seen:
            continue
        seen.add(x.key)
        if not bound(x.q):
            return x
        st += reversed(x.kids)
    return None


def restrict(n, g, i, memo=None):
    """n where the test g takes its i-th outcome"""
    if memo is None:
        memo = {}
    if n.q is None:
        return n
    r = memo.get(n.key)
    if r is None:
        if n.q == g.q and n.cuts == g.cuts:
            r = restrict(n.kids[i], g, i, memo)
        else:
            r = _rebuild(n.q, n.cuts, [restrict(x, g, i, memo) for x in n.kids])
        memo[n.key] = r
    return r


def mkmu(a):
    """recurrence atom -> value: a recurrence that starts at a constant and is only ever assigned that constant"""
    sysd = a.args[1]
    c = None
    for init, nx in sysd:
        ps = leaves(init, set()) | leaves(nx, set())
        for p in ps:
            if p is BOT:
                continue
            k = p.const()
            if k is None:
                if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][0].kind == "muself" \
                        and p.t[0][0][0][1] == 1:
                    continue
                return at(a)
            if c is not None and k != c:
                return at(a)
            c = k
    return at(a) if c is None else num(c)


def subst(n, m):
    return Subst(m).node(n)


_ment = {}


def mentions(x, a):
    """does the atom a occur anywhere in x"""
    s = _ment.get(a)
    if s is None:
        s = _ment[a] = Subst({a: TRUE})
    return s.touches(x)


_ql = {}


def qlevel(x):
    """highest bound-variable level in x"""
    if isinstance(x, tuple):
        return max([qlevel(y) for y in x], default=0)
    if not isinstance(x, (Atom, Poly, Node)):
        return 0
    r = _ql.get(x)
    if r is None:
        if isinstance(x, Atom):
            r = x.args[0] if x.kind == "q" else max([qlevel(y) for y in x.args], default=0)
        elif isinstance(x, Poly):
            r = max([qlevel(a) for a in x.atoms()], default=0)
        elif x.q is None:
            r = qlevel(x.leaf)
        else:
            r = max(qlevel(x.q), max(qlevel(k) for k in x.kids))
        _ql[x] = r
    return r


def reflected(a):
    """sum over 0 <= q < u of a body that is 0 outside 0 <= J - q < n: also a sum over 0 <= q' < n with q' = J - q; the one of the
    two that comes first stands for both"""
    u, q, body = a.args
    qs = patom(q)
    ge = []
    n = body
    while n.q is not None and len(n.kids) == 2 and FALSE in n.kids and isint_poly(n.q) and n.cuts[0][1] == 0:
        v = pconst(n.cuts[0][0])
        i = 1 if n.kids[0] is FALSE else 0
        ge.append(padd(n.q, v, -1) if i else padd(padd(v, n.q, -1), ONE, -1))
        n = n.kids[i]
    best = a
    for g in ge:
        j = padd(g, qs)
        if mentions(j, q):
            continue
        for h in ge:
            w = padd(padd(h, qs, -1), padd(j, ONE))          # h = q - J + n - 1
            if h is g or mentions(w, q):
                continue
            J = j
            t = tmpvar(body)
            m = {q: L(padd(J, patom(t), -1))}
            x = subst(n, m)
            for f in [x for x in ge if x is not g and x is not h] + [padd(padd(u.leaf, qs, -1), ONE, -1), qs]:
                f = subst(L(f), m)
                x = ite(cmp("ge", f, FALSE, True), x, FALSE)
            b = atom("sum", L(w), q, rename(x, t, q), isint=a.isint)
            if b.key < best.key:
                best = b
    return best


class _Canon(Subst):
    """bound variables named by their nesting depth from outside"""

    def __init__(self, depth, family):
        Subst.__init__(self, {})
        self.depth = depth
        self.family = family
        family[depth] = self

    def touches_atom(self, a):
        return qlevel(a) > 0

    def atom(self, a):
        r = self.ma.get(a.key)
        if r is None and a.kind in ("sum", "lam") and self.touches_atom(a):
            inner = self.family.get(self.depth + 1) or _Canon(self.depth + 1, self.family)
            if a.kind == "sum":
                u, q, body = a.args
                b = atom("b", self.depth, isint=True, dom=q.dom)
                body = inner.node(rename(body, q, b))
                r = apply(lambda v: UNDEF if v is BOT else at(reflected(atom("sum", L(v), b, body, isint=a.isint))), self.node(u))
            else:
                q, facts, body = a.args
                b = atom("b", self.depth, isint=True, dom=q.dom)
                fs = [inner.node(rename(L(f), q, b)) for f in facts]
                fs = tuple(sorted((f.leaf for f in fs if f.q is None), key=lambda p: p.key))
                r = at(atom("lam", b, fs, inner.node(rename(body, q, b))))
            self.ma[a.key] = r
        if r is None:
            r = Subst.atom(self, a)
        return r


def canon(n):
    """n with its bound variables named independently of how it was built"""
    return _Canon(0, {}).node(n)


_tl = {}


def tmplevel(x):
    """highest index of the temporaries in x"""
    if isinstance(x, (tuple, list)):
        return max([tmplevel(y) for y in x], default=0)
    if not isinstance(x, (Atom, Poly, Node)):
        return 0
    r = _tl.get(x)
    if r is None:
        if isinstance(x, Atom):
            r = x.args[0] if x.kind == "tmp" else max([tmplevel(y) for y in x.args], default=0)
        elif isinstance(x, Poly):
            r = max([tmplevel(a) for a in x.atoms()], default=0)
        elif x.q is None:
            r = tmplevel(x.leaf)
        else:
            r = max(tmplevel(x.q), max(tmplevel(k) for k in x.kids))
        _tl[x] = r
    return r


def tmpvar(*xs):
    """a bound variable's stand-in that occurs in none of xs"""
    return atom("tmp", 1 + tmplevel(xs), isint=True, dom=(0, None))


_renames = {}


def rename(n, a, b):
    """n with atom a replaced by atom b"""
    s = _renames.get((a, b))
    if s is None:
        s = _renames[(a, b)] = Subst({a: at(b)})
    return s.node(n)


def atoms_of(x, seen=None, deep=True):
    """all atoms reachable from x"""
    if seen is None:
        seen = {}
    if isinstance(x, Atom):
        if x.key in seen:
            return seen
        seen[x.key] = x
        if deep:
            for y in x.args:
                atoms_of(y, seen, deep)
    elif isinstance(x, Poly):
        for a in x.atoms():
            atoms_of(a, seen, deep)
    elif isinstance(x, Node):
        k = "N" + x.key
        if k in seen:
            return seen
        seen[k] = None
        if x.q is None:
            atoms_of(x.leaf, seen, deep)
        else:
            atoms_of(x.q, seen, deep)
            for c in x.kids:
                atoms_of(c, seen, deep)
    elif isinstance(x, tuple):
        for y in x:
            atoms_of(y, seen, deep)
    return seen


def leaves(n, out):
    """the leaf polynomials of a diagram"""
    if n.q is None:
        out.add(n.leaf)
    else:
        for k in n.kids:
            leaves(k, out)
    return out


def top_atoms(n):
    """atoms that occur directly in a leaf polynomial"""
    out = {}
    for p in leaves(n, set()):
        if p is not BOT:
            for a in p.atoms():
                out[a.key] = a
    return out.values()


def atomset(x):
    return [a for a in atoms_of(x).values() if a is not None]


# printing ---------------------------------------------------------------------------------------

_names = {}


SHOWALL = [False]


def show_atom(a, d=0):
    if d > 14:
        return "..."
    k = a.kind
    if k == "sym":
        return str(a.args[0]) + "".join(f"_{x}" for x in a.args[1:] if isinstance(x, int))
    if k == "arg":
        return "arg%s" % a.args[0]
    if k == "fn":
        return a.args[0] + "(" + ", ".join(_sh(x, d + 1) for x in a.args[1:]) + ")"
    if k == "inv":
        return "1/(" + _sh(a.args[0], d + 1) + ")"
    if k == "ld":
        return "*(" + ", ".join(_sh(x, d + 1) for x in a.args if x != "") + ")"
    if k == "k":
        return "k" + _sh(a.args[0], d + 1)
    if k == "loop":
        return f"<loop{a.args[0]}#{a.key[:4]}>"
    return k + "(" + ", ".join(_sh(x, d + 1) for x in a.args) + ")"


def _sh(x, d=0):
    d = 0 if SHOWALL[0] else d
    if isinstance(x, Atom):
        return show_atom(x, d)
    if isinstance(x, Poly):
        return show_poly(x, d)
    if isinstance(x, Node):
        return show(x, d)
    if isinstance(x, tuple):
        return "[" + ", ".join(_sh(y, d) for y in x) + "]"
    return str(x)


def show_poly(p, d=0):
    if p is BOT:
        return "undef"
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        s = "*".join(show_atom(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not m:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    return " + ".join(out)


def show(n, d=0):
    if n.q is None:
        return show_poly(n.leaf, d)
    if d > 10:
        return "{..}"
    q = show_poly(n.q, d + 1)
    parts = []
    for i, k in enumerate(n.kids):
        lo = n.cuts[i - 1] if i else None
        hi = n.cuts[i] if i < len(n.cuts) else None
        r = ""
        if lo:
            r += f"{lo[0]}{'<=' if lo[1] == 0 else '<'}"
        r += "."
        if hi:
            r += f"{'<' if hi[1] == 0 else '<='}{hi[0]}"
        parts.append(f"{r}: {show(k, d + 1)}")
    return "{" + q + " ? " + " | ".join(parts) + "}"
