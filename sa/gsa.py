"""Value numbering of one function over its gated SSA form.

For a function (after inlining/SSA passes) this computes, by one forward dataflow pass over the CFG with loops
collapsed, a canonical value for every SSA name and the ordered list of observable effects (stores, calls,
return), each with its guard, its address, its value and the loops it is in.  Loop-carried values are put in
closed form (affine, accumulated sum) or kept as a canonical recurrence.  Nothing is executed and no path is
enumerated.
"""
import math
from fractions import Fraction as Q
from . import expr as X
from .expr import (Node, Poly, Atom, L, TRUE, FALSE, UNDEF, BOT, AND, OR, NOT, ite, add, sub, mul, num, at, atom, cmp, fn)

MATH = {}
for _n in ("sqrt fabs rint nearbyint floor ceil round trunc sin cos tan asin acos atan exp log log10 log2 sinh cosh "
           "tanh roundeven lrint llrint lround llround").split():
    MATH[_n] = _n
    MATH[_n + "f"] = _n
    for _t in ("f32", "f64"):
        MATH[f"llvm.{_n}.{_t}"] = _n
for _n in ("pow", "atan2", "fmod", "hypot", "fmin", "fmax"):
    MATH[_n] = _n
    MATH[_n + "f"] = _n
    for _t in ("f32", "f64"):
        MATH[f"llvm.{_n}.{_t}"] = _n
for _t in ("f32", "f64"):
    MATH[f"llvm.minnum.{_t}"] = "fmin"
    MATH[f"llvm.maxnum.{_t}"] = "fmax"
    MATH[f"llvm.fmuladd.{_t}"] = "fma"
    MATH[f"llvm.fma.{_t}"] = "fma"
    MATH[f"llvm.lrint.i64.{_t}"] = "lrint"
    MATH[f"llvm.llrint.i64.{_t}"] = "lrint"
    MATH[f"llvm.lround.i64.{_t}"] = "lround"
for _n in ("sqrt", "native_sqrt", "fabs", "rint", "round", "floor", "ceil", "acos", "cos", "sin", "atan", "exp"):
    for _t in ("f", "d"):
        MATH[f"_Z{len(_n)}{_n}{_t}"] = "sqrt" if _n == "native_sqrt" else _n
MATH["fma"] = "fma"

IGNORED_CALLS = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.stacksave",
                 "llvm.stackrestore", "llvm.donothing", "llvm.invariant.")


EXACT32 = [False]     # single precision as a rounding detail (for code that computes in single precision throughout)


class Unsupported(Exception):
    pass


class Loop:
    __slots__ = ("header", "blocks", "parent", "children", "depth", "latches", "uid", "exits", "atom", "karg", "sigma",
                 "tc", "kph", "exitmap", "phis")


def natural_loops(F):
    """dominator-based natural loops; returns (toplevel loops, innermost loop of block)"""
    blocks = F.blocks
    entry = blocks[0]
    order = []
    seen = set()
    stack = [(entry, iter(entry.succs))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num_ = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while num_[a] > num_[c]:
                                a = idom[a]
                            while num_[c] > num_[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) is not new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while num_[b] > num_[a]:
            b = idom[b]
        return a is b
    loops = {}
    for b in rpo:
        for s in b.succs:
            if s in num_ and dom(s, b):
                l = loops.get(s)
                if l is None:
                    l = Loop()
                    l.header = s
                    l.blocks = {s}
                    l.latches = []
                    l.children = []
                    l.parent = None
                    loops[s] = l
                l.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l.blocks:
                        l.blocks.add(x)
                        work.extend(p for p in x.preds if p in num_)
            elif s in num_ and num_[s] <= num_[b]:
                raise Unsupported("irreducible control flow")
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and m is not l:
                l.parent = m
                m.children.append(l)
                break
    inner = {}
    for l in reversed(ls):
        for b in l.blocks:
            inner[b] = l
    for l in ls:
        d, p = 1, l.parent
        while p:
            d += 1
            p = p.parent
        l.depth = d
    return [l for l in ls if l.parent is None], inner, rpo, idom


class Effect:
    __slots__ = ("kind", "cond", "addr", "val", "args", "name", "loops", "ins", "size", "seq", "uids", "tcs")

    def __repr__(self):
        return f"<{self.kind} {self.name or ''} if {self.cond} addr={self.addr} val={self.val} args={self.args} loops={self.loops}>"


PTR = set()      # keys of atoms that denote object base pointers


def mark_ptr(a):
    PTR.add(a.key)
    return a


def is_ptr(a):
    return a.key in PTR or a.kind in ("heap", "alloca", "glob", "obj") or (a.kind == "ld" and a.args[1] == "ptr")


def base_of(p):
    """split an address polynomial into (base atom, offset polynomial)"""
    b = None
    for m, c in p.t:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and is_ptr(m[0][0]):
            if b is not None:
                return None, p
            b = m[0][0]
    if b is None:
        return None, p
    return b, X.padd(p, X.patom(b), -1)


_uid = [0]


class Summary:
    def __init__(self, F, params=None, drop_exit=None, on_call=None, on_load=None, tag="", arrays=False, on_read=None, exits=False):
        """params: optional list of nodes for the parameters
        drop_exit(loop, block) -> True when a non-header exit at that block is assumed not taken"""
        self.F = F
        self.M = F.mod
        self.drop_exit = drop_exit or (lambda l, b: False)
        self.on_call = on_call
        self.on_load = on_load
        self.on_read = on_read
        self.exits = exits      # leaving through a call that does not return is a way out like any other
        self.arrays = arrays
        self.heap = {}
        self.pairs = {}
        self.effects = []
        self.vals = {}
        self.tag = tag
        self.cache_const = {}
        F.mod.body(F)
        for i, p in enumerate(F.params):
            if params is not None and i < len(params) and params[i] is not None:
                self.vals[p] = params[i]
            else:
                a = atom("arg", i, isint=p.ty.kind in ("int", "ptr"))
                if p.ty.kind == "ptr":
                    mark_ptr(a)
                self.vals[p] = at(a)
        self.top, self.inner, self.rpo, _ = natural_loops(F)
        self.reach = set(self.rpo)
        self.curloops = []
        self.written = None
        self.nalloca = 0
        self.notes = []
        self._prescan()
        self.eval_region(F.blocks[0], self.reach, None)
        self.finish()

    # -- memory: which bases are written anywhere in the function ----------------------------
    def _prescan(self):
        """object roots (by a crude syntactic walk) that are stored to; loads of others are stable.
        Keyed by root, then by field: (constant offset, variable stride) pairs."""
        self.stored_roots = {}
        self.single = {}
        cnt = {}
        for b in self.rpo:
            for i in b.instrs:
                if i.op == "store":
                    self.stored_roots.setdefault(self._root(i.ops[1]), set()).add(self._field(i.ops[1]))
                    if i.ops[1].k == "inst" and i.ops[1].op == "alloca":
                        cnt.setdefault(i.ops[1], []).append(i)
                elif i.op in ("atomicrmw", "cmpxchg"):
                    self.stored_roots.setdefault(self._root(i.ops[0]), set()).add(self._field(i.ops[0]))
                elif i.op in ("call", "invoke") and i.callee.k == "func" and \
                        (i.callee.name.startswith("llvm.mem")):
                    self.stored_roots.setdefault(self._root(i.ops[0]), set()).add(None)
        # scalars kept in memory only because their address is handed to a std:: helper
        uses = {}
        for b in self.rpo:
            for i in b.instrs:
                for o in i.ops or ():
                    if o.k == "inst" and o.op == "alloca":
                        uses.setdefault(o, []).append(i)
        for a, ss in cnt.items():
            if len(ss) != 1 or a.elty.kind not in ("int", "float", "double", "ptr"):
                continue
            ok = True
            for u in uses.get(a, ()):
                if u is ss[0] and ss[0].ops[0] is not a:
                    continue
                if u.op == "load":
                    continue
                if u.op in ("call", "invoke") and u.callee.k == "func":
                    from . import llvm
                    d = llvm.demangle1(u.callee.name)
                    if u.callee.name.startswith(IGNORED_CALLS) or "std::" in d.split("(")[0]:
                        continue
                ok = False
            if ok:
                self.single[a] = ss[0]

    def _field(self, v):
        """(constant offset, stride) of the last GEP steps, or None"""
        off, stride = 0, 0
        while True:
            if v.k in ("inst", "cexpr") and v.op == "getelementptr":
                off += v.gep[0]
                for ix, s_ in v.gep[1]:
                    if stride and stride != s_:
                        return None
                    stride = s_
                v = v.ops[0]
            elif v.k in ("inst", "cexpr") and v.op in ("bitcast", "addrspacecast"):
                v = v.ops[0]
            else:
                break
        if v.k == "inst" and v.op == "phi":
            return None
        return (off, stride)

    def maybe_written(self, v):
        root = self._root(v)
        fs = self.stored_roots.get(root)
        if not fs:
            return False
        f = self._field(v)
        if f is None or None in fs:
            return True
        for o, s_ in fs:
            if s_ != f[1]:
                # scalar field against array element: only clearly different when both constant
                return True
            if s_ == 0:
                if o == f[0]:
                    return True
            elif (o - f[0]) % s_ == 0:
                return True
        return False

    def _root(self, v, d=0):
        while True:
            if v.k == "inst" and v.op in ("getelementptr", "bitcast", "addrspacecast"):
                v = v.ops[0]
            elif v.k == "cexpr" and v.op in ("getelementptr", "bitcast", "addrspacecast"):
                v = v.ops[0]
            else:
                break
        if v.k == "inst" and v.op == "phi" and d < 6:
            rs = {self._root(o, d + 1) for o in v.ops if o is not v}
            rs = {r for r in rs if r != ("phi", id(v))}
            if len(rs) == 1:
                return rs.pop()
            return ("phi", id(v))
        if v.k == "inst" and v.op == "load":
            r = self._root(v.ops[0], d + 1) if d < 6 else "?"
            off = v.ops[0].gep[0] if v.ops[0].k == "inst" and v.ops[0].op == "getelementptr" else 0
            return ("ld", r, off)
        if v.k == "arg":
            return ("arg", v.val)
        if v.k == "global":
            return ("g", v.name)
        return (v.k, id(v))

    # -- values ---------------------------------------------------------------------------------
    def V(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        k = v.k
        if k == "int":
            r = num(v.val)
        elif k == "fp":
            r = L(X.pfloat(v.val, v.ty.kind == "float"))
        elif k == "null" or k == "zero":
            r = FALSE
        elif k == "undef":
            r = UNDEF
        elif k in ("func", "global"):
            r = at(mark_ptr(atom("glob", v.name, isint=True)))
        elif k == "cexpr":
            if v.op == "getelementptr":
                r = self.gep(v)
            elif v.op in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr"):
                r = self.V(v.ops[0])
            elif v.op in ("sub", "add"):
                a, b = self.V(v.ops[0]), self.V(v.ops[1])
                r = add(a, b) if v.op == "add" else sub(a, b)
            else:
                r = at(atom("const", v.op, str(id(v))))
        elif k == "agg":
            r = at(atom("agg", str(v.val), str(v.ops and [str(o.val) for o in v.ops])))
        elif k == "inst":
            raise Unsupported(f"use of unevaluated {v} in {self.F.dem}")
        else:
            r = at(atom("other", k, v.name))
        self.vals[v] = r
        return r

    def gep(self, v):
        off, var = v.gep
        r = self.V(v.ops[0])
        if off:
            r = add(r, num(off))
        for ix, s in var:
            r = add(r, mul(self.V(ix), num(s)))
        return r

    def ktuple(self):
        return tuple(l.kph for l in self.curloops)

    def eval(self, i):
        op = i.op
        o = i.ops
        V = self.V
        if op in ("add", "sub", "mul", "fadd", "fsub", "fmul"):
            a, b = V(o[0]), V(o[1])
            if i.ty.kind == "int" and i.ty.bits == 1:
                return ite(a, NOT(b), b) if op != "mul" else AND(a, b)
            f = {"add": add, "fadd": add, "sub": sub, "fsub": sub, "mul": mul, "fmul": mul}[op]
            return f(a, b)
        if op == "fdiv":
            return X.div(V(o[0]), V(o[1]))
        if op == "fneg":
            return X.neg(V(o[0]))
        if op in ("sdiv", "udiv", "srem", "urem", "frem"):
            nm = {"udiv": "sdiv", "urem": "srem"}.get(op, op)   # sizes and indices are non-negative
            return fn(nm, V(o[0]), V(o[1]))
        if op == "shl":
            if o[1].k == "int":
                return mul(V(o[0]), num(2 ** o[1].val))
            return fn("shl", V(o[0]), V(o[1]))
        if op in ("lshr", "ashr"):
            if o[1].k == "int":
                return fn("sdiv", V(o[0]), num(2 ** o[1].val))
            return fn(op, V(o[0]), V(o[1]))
        if op in ("and", "or", "xor"):
            a, b = V(o[0]), V(o[1])
            if i.ty.bits == 1 or (self.is_bool(a) and self.is_bool(b)):
                if op == "and":
                    return AND(a, b)
                if op == "or":
                    return OR(a, b)
                return ite(a, NOT(b), b)
            if op == "and" and o[1].k == "int" and o[1].val == 1:
                return fn("bool", a)
            return fn(op, a, b)
        if op == "icmp":
            p = {"eq": "eq", "ne": "ne", "sgt": "gt", "sge": "ge", "slt": "lt", "sle": "le",
                 "ugt": "gt", "uge": "ge", "ult": "lt", "ule": "le"}[i.pred]
            a, b = V(o[0]), V(o[1])
            if i.pred[0] == "u" and o[0].ty.kind != "ptr":
                # unsigned range test (x - c) < n with constants: 0 <= x-c < n
                r = cmp(p, a, b, True)
                if p in ("lt", "le"):
                    return AND(r, cmp("ge", a, FALSE, True)) if not self.nonneg(a) else r
                return OR(r, cmp("lt", a, FALSE, True)) if not self.nonneg(a) else r
            return cmp(p, a, b, True)
        if op == "fcmp":
            p = i.pred
            if p in ("true", "ord"):
                return TRUE
            if p in ("false", "uno"):
                return FALSE
            return cmp(p[1:] if p[1:] in ("eq", "ne", "gt", "ge", "lt", "le") else p, V(o[0]), V(o[1]), False)
        if op == "select":
            return ite(self.B(o[0]), V(o[1]), V(o[2]))
        if op in ("sext", "zext", "sitofp", "uitofp", "fpext", "bitcast", "addrspacecast", "ptrtoint", "inttoptr",
                  "freeze"):
            v = V(o[0])
            if op == "sext" and o[0].ty.kind == "int" and o[0].ty.bits == 1:
                return X.neg(v)
            return v
        if op == "trunc":
            v = V(o[0])
            if i.ty.bits == 1:
                if self.is_bool(v):
                    return v
                return fn("bool", v)
            if self.is_bool(v):
                return v
            return fn(f"trunc{i.ty.bits}", v)
        if op == "fptrunc":
            return V(o[0]) if EXACT32[0] else fn("f32", V(o[0]))
        if op in ("fptosi", "fptoui"):
            r = fn("f2i", V(o[0]))
            return r
        if op == "getelementptr":
            return self.gep(i)
        if op == "alloca":
            self.nalloca += 1
            return at(mark_ptr(atom("alloca", self.tag, i.elty.s if i.elty.kind != "struct" else i.elty.s.split(" ")[0],
                                    self.nalloca, isint=True)))
        if op == "load":
            return self.load(i)
        if op == "extractvalue" and o[0] in self.pairs:
            return self.pairs[o[0]][i.indices[0]]
        if op in ("extractvalue", "insertvalue"):
            return at(atom(op, tuple(i.indices), tuple(V(x) for x in o), self.ktuple()))
        if op in ("extractelement", "insertelement", "shufflevector"):
            return at(atom(op, tuple(V(x) for x in o)))
        if op == "landingpad":
            return UNDEF
        raise Unsupported(f"{op} in {self.F.dem}")

    def nonneg(self, n):
        if n.q is None:
            c = n.leaf.const() if n.leaf is not BOT else None
            if c is not None:
                return c >= 0
            return n.leaf is not BOT and all(c > 0 and all(a.dom is not None and a.dom[0] is not None and a.dom[0] >= 0
                                                           for a, e in m) for m, c in n.leaf.t)
        return all(self.nonneg(k) for k in n.kids)

    def is_bool(self, n):
        if n.q is None:
            if n.leaf is BOT:
                return True
            c = n.leaf.const()
            if c is not None:
                return c in (0, 1)
            t = n.leaf.t
            return len(t) == 1 and t[0][1] == 1 and len(t[0][0]) == 1 and t[0][0][0][0].dom == (0, 1)
        return all(self.is_bool(k) for k in n.kids)

    def B(self, v):
        """truth value of an i1 operand as a 0/1 diagram"""
        n = self.V(v)
        return self.tb(n)

    def tb(self, n):
        def f(x):
            if x is BOT:
                return UNDEF
            c = x.const()
            if c is not None:
                return TRUE if c else FALSE
            return X._cmp_leaf("ne", x, X.ZERO, True)
        return X.apply(f, n)

    def load(self, i):
        a = self.V(i.ops[0])
        if self.on_read is not None:
            self.on_read(self, i, a)
        isint = i.ty.kind in ("int", "ptr")
        root = self._root(i.ops[0])
        if i.ordering or i.volatile:
            tag = ("atomic", self.ktuple(), self.seqtag())
        elif i.ops[0] in self.single:
            return self.V(self.single[i.ops[0]].ops[0])
        elif self.maybe_written(i.ops[0]):
            f = self.forward(i, a)
            if f is not None:
                return f
            tag = self.vtag() if self.arrays else ("w", self.ktuple())
        elif self.arrays and not self.stable_root(root):
            f = self.forward(i, a)
            if f is not None:
                return f
            tag = self.vtag()
        else:
            tag = ()
        ptr = i.ty.kind == "ptr"
        dom = (0, 1) if False else None

        def mk(p):
            if p is BOT:
                return UNDEF
            if self.on_load is not None and (tag == () or getattr(self.on_load, "local", False) or
                                             tag[0] == "atomic" and getattr(self.on_load, "volatile", False)):
                v = self.on_load(self, i, p)
                if v is not None:
                    return v
            x = atom("ld", p, i.ty.s, tag, isint=isint, dom=dom)
            if ptr:
                mark_ptr(x)
            return at(x)
        return X.apply(mk, a)

    def vtag(self):
        return ("v", len(self.effects), tuple(l.uid for l in self.curloops), self.ktuple())

    def stable_root(self, r):
        while r[0] == "ld":
            r = r[1]
        return r[0] in ("arg", "g")

    def seqtag(self):
        return len(self.effects)

    def forward(self, i, a):
        """value stored earlier in the same block to the same address, no store/call in between"""
        b = i.block
        for j in reversed(b.instrs[:i.idx]):
            if j.op == "store":
                if self.V(j.ops[1]) is a and j.ops[0].ty.s == i.ty.s:
                    return self.V(j.ops[0])
                if self._root(j.ops[1]) == self._root(i.ops[0]):
                    x, y = self.V(j.ops[1]), a
                    d = sub(x, y)
                    if d.q is None and d.leaf.const() is not None and abs(d.leaf.const()) >= 8:
                        continue
                    return None
            elif j.op in ("call", "invoke"):
                if j.callee.k == "func" and (j.callee.name in MATH or j.callee.name.startswith(IGNORED_CALLS)):
                    continue
                return None
        return None

    # -- effects -----------------------------------------------------------------------------
    def effect(self, kind, ins, **kw):
        e = Effect()
        e.kind = kind
        e.cond = TRUE
        e.addr = kw.get("addr")
        e.val = kw.get("val")
        e.args = kw.get("args")
        e.name = kw.get("name")
        e.size = kw.get("size")
        e.loops = e.uids = e.tcs = ()
        e.ins = ins
        e.seq = len(self.effects)
        self.effects.append(e)
        return e

    def eval_block(self, b):
        for i in b.instrs:
            op = i.op
            if op == "phi":
                continue
            if op in ("br", "switch", "unreachable", "resume"):
                continue
            if op == "store":
                self.store(i)
            elif op in ("call", "invoke"):
                self.call(i)
            elif op == "ret":
                self.effect("ret", i, val=self.V(i.ops[0]) if i.ops else None)
            elif op in ("fence",):
                pass
            elif op in ("atomicrmw", "cmpxchg"):
                args = [self.V(x) for x in i.ops]
                self.effect("atomic", i, args=args, name=op)
                self.vals[i] = at(atom("ret", op, tuple(args), self.ktuple(), isint=True))
            else:
                self.vals[i] = self.eval(i)

    def store(self, i):
        a = self.V(i.ops[1])
        v = self.V(i.ops[0])
        # accumulation: v = old + delta
        leaves = set()
        X.leaves(a, leaves)
        hits = {}
        for x in X.top_atoms(v):
            if x.kind == "ld" and isinstance(x.args[0], Poly) and x.args[0] in leaves and not x.args[2][:1] == ("atomic",):
                hits[(x.args[1], x.args[2])] = x
        if len(hits) == 1:
            (ty, tag), x0 = hits.popitem()
            old = X.apply(lambda p: UNDEF if p is BOT else at(atom("ld", p, ty, tag, isint=x0.isint)), a)
            d = sub(v, old)
            if not any(x.kind == "ld" and x.args[0] in leaves and x.args[2] == tag for x in X.atomset(d)
                       if x.kind == "ld" and isinstance(x.args[0], Poly)):
                self.effect("acc", i, addr=a, val=d, size=i.ops[0].ty.s)
                return
        self.effect("store", i, addr=a, val=v, size=i.ops[0].ty.s)

    def call(self, i):
        c = i.callee
        if c.k == "func":
            nm = c.name
            if nm.startswith(IGNORED_CALLS):
                self.vals[i] = FALSE
                return
            m = MATH.get(nm)
            if m:
                args = [self.V(x) for x in i.ops]
                if m == "fma":
                    self.vals[i] = add(mul(args[0], args[1]), args[2])
                elif m == "hypot":
                    self.vals[i] = fn("sqrt", add(mul(args[0], args[0]), mul(args[1], args[1])))
                elif m in ("fmin", "fmax"):
                    c_ = cmp("le" if m == "fmin" else "ge", args[0], args[1], False)
                    self.vals[i] = ite(c_, args[0], args[1])
                else:
                    self.vals[i] = fn(m, *args)
                return
            if ".with.overflow." in nm:
                a, b = self.V(i.ops[0]), self.V(i.ops[1])
                self.pairs[i] = (mul(a, b) if "mul" in nm else add(a, b) if "add" in nm else sub(a, b), FALSE)
                self.vals[i] = FALSE
                return
            if nm.startswith("llvm.expect"):
                self.vals[i] = self.V(i.ops[0])
                return
            if nm.startswith("llvm.abs."):
                a = self.V(i.ops[0])
                self.vals[i] = ite(cmp("ge", a, FALSE, True), a, X.neg(a))
                return
            if nm.startswith(("llvm.smin.", "llvm.smax.", "llvm.umin.", "llvm.umax.")):
                a, b = self.V(i.ops[0]), self.V(i.ops[1])
                self.vals[i] = ite(cmp("le" if "min" in nm else "ge", a, b, True), a, b)
                return
            if nm.startswith("llvm.memset"):
                v = self.V(i.ops[1])
                e = self.effect("memset", i, addr=self.V(i.ops[0]), val=v, args=[self.V(i.ops[2])])
                if v is FALSE:
                    self.as_loop(i, e, None)
                self.vals[i] = FALSE
                return
            if nm.startswith(("llvm.memcpy", "llvm.memmove")):
                e = self.effect("memcpy", i, addr=self.V(i.ops[0]), args=[self.V(i.ops[1]), self.V(i.ops[2])])
                if self.addr_of_data(i.ops[1]):
                    self.as_loop(i, e, i.ops[1])
                self.vals[i] = FALSE
                return
            if nm.startswith("_Z13get_global_id"):
                d = self.V(i.ops[0])
                d = d.leaf.const() if d.q is None else None
                self.vals[i] = FALSE if d else at(atom("sym", "get_global_id", isint=True, dom=(0, 2**31 - 1)))
                return
        else:
            nm = None
        args = [self.V(x) for x in i.ops]
        if c.k == "func":
            name = c.name
        else:
            name = "indirect"
            args = [self.V(c)] + args
        if self.on_call is not None:
            r = self.on_call(self, i, name, args)
            if r is not None:
                self.vals[i] = r
                return
        isint = i.ty.kind in ("int", "ptr")
        pos = ()
        if i.ty.kind == "ptr":
            pos = (len([e for e in self.effects if e.kind == "call" and e.name == name]),)
        ra = atom("ret", name, tuple(args), self.ktuple(), pos, isint=isint)
        if i.ty.kind == "ptr":
            mark_ptr(ra)
        self.effect("call", i, args=args, name=name, val=at(ra))
        self.vals[i] = at(ra)

    def addr_of_data(self, v):
        if self.arrays:
            return True
        r = self._root(v)
        return r[0] in ("arg", "ld")

    def as_loop(self, i, e, src):
        """a block fill/copy is the element loop it abbreviates"""
        n = e.args[-1]
        if n.q is not None or n.leaf.const() is not None:
            return
        for size, ty in ((8, "double"), (4, "float")):
            if all((c / size).denominator == 1 for _, c in n.leaf.t):
                break
        else:
            return
        if any("float" in t and "complex" not in t for t in (str(e.ins.ops[0].ty),)):
            pass
        tc = L(X.pscale(n.leaf, Q(1, size)))
        depth = len(self.curloops) + 1
        me = at(atom("self", depth, isint=True, dom=(0, None)))
        la = atom("loop", depth, ((0, cmp("ge", me, tc, True)),))
        k = at(atom("k", la, isint=True, dom=(0, None)))
        e.kind = "store"
        e.size = ty
        off = mul(k, num(size))
        if src is None:
            e.val = FALSE
        else:
            tag = ("w", self.ktuple()) if self.maybe_written(src) else ()
            if self.arrays and (tag or not self.stable_root(self._root(src))):
                tag = ("v", e.seq, tuple(l.uid for l in self.curloops), self.ktuple())
            e.val = X.apply(lambda p: UNDEF if p is BOT else at(atom("ld", p, ty, tag)), add(e.args[0], off))
        e.addr = add(e.addr, off)
        e.args = None
        e.loops = (la,)
        _uid[0] += 1
        e.uids = (_uid[0],)
        e.tcs = (tc,)

    # -- control -------------------------------------------------------------------------------
    def edges(self, b, loop):
        """outgoing edges of block b inside the region of `loop`: [(target, cond)], and loop exits"""
        t = b.instrs[-1]
        out = []
        if t.op == "br":
            if not t.ops:
                out = [(t.succs[0], TRUE)]
            elif t.succs[0] is t.succs[1]:
                out = [(t.succs[0], TRUE)]
            else:
                c = self.B(t.ops[0])
                out = [(t.succs[0], c), (t.succs[1], NOT(c))]
        elif t.op == "switch":
            v = self.V(t.ops[0])
            other = TRUE
            acc = {}
            for cv, tb in t.cases:
                c = cmp("eq", v, num(cv), True)
                c = AND(other, c)
                other = AND(other, NOT(c))
                acc[tb] = OR(acc.get(tb, FALSE), c)
            d = t.succs[0]
            acc[d] = OR(acc.get(d, FALSE), other)
            out = list(acc.items())
        elif t.op == "invoke":
            out = [(t.succs[0], TRUE)]
        elif t.op in ("ret", "unreachable", "resume"):
            out = []
        else:
            raise Unsupported(f"terminator {t.op} in {self.F.dem}")
        # ignore edges into blocks that only end in unreachable/resume (exceptional)
        live = [(s, c) for s, c in out if not self.dead(s) and c is not FALSE]
        if len(live) == 1 and len(out) > 1 and not self.exits:
            live = [(live[0][0], TRUE)]
        return live

    def dead(self, b):
        m = self.F._cache.setdefault("dead", {})
        r = m.get(b)
        if r is None:
            m[b] = False
            t = b.instrs[-1]
            if t.op in ("unreachable", "resume") or b.instrs[0].op == "landingpad":
                r = True
            else:
                succ = [s for s in (t.succs or []) if s is not t.unwind]
                r = bool(succ) and t.op != "ret" and all(self.dead(s) for s in succ)
            m[b] = r
        return r

    def eval_region(self, header, blocks, loop):
        children = loop.children if loop else self.top
        owner = {}
        for c in children:
            for b in c.blocks:
                owner[b] = c

        def node_of(b):
            return owner.get(b, b)
        order = []
        succs = {}      # node -> [(target node, cond, from block, to block)]
        indeg_seen = set()
        # static topological order over the collapsed graph
        state = {}

        def static_succs(n):
            if isinstance(n, Loop):
                r = []
                for b in n.blocks:
                    for s in b.succs:
                        if s not in n.blocks and s in blocks and s is not header and not self.dead(s):
                            r.append(node_of(s))
                return r
            t = n.instrs[-1]
            return [node_of(s) for s in n.succs if s in blocks and s is not header and s is not t.unwind
                    and not self.dead(s)]
        start = node_of(header) if loop is None else header
        stack = [(start, iter(static_succs(start)))]
        state[start] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(static_succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        pos = {n: i for i, n in enumerate(order)}
        preds = {n: [] for n in order}
        idom = {start: None}
        cond = {}
        back = []
        exits = []
        rel_cache = {}
        region_e0 = len(self.effects)

        def common(a, b):
            while a is not b:
                if pos[a] > pos[b]:
                    a = idom[a]
                else:
                    b = idom[b]
            return a

        def rel(d, n):
            """condition of reaching node n from its dominator d"""
            if d is n:
                return TRUE
            key = (id(d), id(n))
            r = rel_cache.get(key)
            if r is None:
                r = FALSE
                for p, c, _, _ in preds[n]:
                    r = OR(r, AND(rel(d, p), c))
                rel_cache[key] = r
            return r
        for n in order:
            if n is start:
                cond[n] = TRUE
            else:
                if not preds[n]:
                    cond[n] = FALSE
                    idom[n] = start
                    continue
                d = preds[n][0][0]
                for p, _, _, _ in preds[n][1:]:
                    d = common(d, p)
                idom[n] = d
                cond[n] = AND(cond[d], rel(d, n))
            if isinstance(n, Loop):
                e0 = len(self.effects)
                pre = {}
                for (p, c, fb, tb) in preds[n]:
                    pre[fb] = (p, c)
                outs, none = self.eval_loop(n, preds[n], lambda p: rel(idom[n], p) if n is not start else TRUE, cond[n])
                for e in self.effects[e0:]:
                    e.cond = AND(cond[n], e.cond)
                    if none is not FALSE:
                        # a test that only says the loop runs at all
                        e.cond = X.strip_bot(ite(none, UNDEF, e.cond))
                for (fb, tb, c) in outs:
                    if tb in blocks and tb is not header:
                        t = node_of(tb)
                        if t in preds:
                            preds[t].append((n, c, fb, tb))
                    elif tb is header:
                        back.append((fb, AND(cond[n], c)))
                    else:
                        exits.append((fb, tb, AND(cond[n], c), None))
            else:
                b = n
                if not (loop is not None and b is header):
                    self.phis(b, preds[n], idom.get(n), rel)
                e0 = len(self.effects)
                self.eval_block(b)
                for e in self.effects[e0:]:
                    e.cond = cond[n]
                es = self.edges(b, loop)
                inside = [(s, c) for s, c in es if s in blocks]
                outside = [(s, c) for s, c in es if s not in blocks]
                if loop is not None and outside and inside:
                    latch = any(s is header for s, _ in inside)
                    first = len(self.effects) == region_e0
                    if cond[n] is TRUE and latch and not (b is header and len(blocks) > 1):
                        kind = "bot"
                    elif cond[n] is TRUE and first:
                        kind = "top"
                    else:
                        kind = None
                    if kind is None and self.drop_exit(loop, b):
                        if len(inside) == 1:
                            inside = [(inside[0][0], TRUE)]
                        self.notes.append(("dropped-exit", b))
                    else:
                        exits += [(b, s, AND(cond[n], c), kind) for s, c in outside]
                        if kind and len(inside) == 1:
                            inside = [(inside[0][0], TRUE)]
                elif outside:
                    if self.drop_exit(loop, b) and loop is not None:
                        self.notes.append(("dropped-exit", b))
                    else:
                        exits += [(b, s, AND(cond[n], c), None) for s, c in outside]
                for s, c in inside:
                    if s is header:
                        back.append((b, AND(cond[n], c)))
                        continue
                    t = node_of(s)
                    if t in preds:
                        preds[t].append((n, c, b, s))
        return exits, back, cond

    def exit_val(self, v, fb, tb):
        """value of v flowing along the edge fb->tb, leaving loops if needed"""
        r = self.V(v)
        if v.k != "inst":
            return r
        lv = self.inner.get(v.block)
        lt = self.inner.get(tb)
        while lv is not None and (lt is None or not self._within(lt, lv)):
            r = lv.exitmap[(fb, tb)].node(r) if (fb, tb) in lv.exitmap else self._outer_exit(lv, fb, tb, r)
            lv = lv.parent
        return r

    def _outer_exit(self, lv, fb, tb, r):
        for k, s in lv.exitmap.items():
            if k[1] is tb or k[0] is fb:
                return s.node(r)
        for s in lv.exitmap.values():
            return s.node(r)
        return r

    def _within(self, a, b):
        while a is not None:
            if a is b:
                return True
            a = a.parent
        return False

    def phis(self, b, preds, d, rel):
        for i in b.instrs:
            if i.op != "phi":
                break
            inc = {u: v for v, u in i.incoming}
            items = []
            for p, c, fb, tb in preds:
                if tb is not b:
                    continue
                items.append((AND(rel(d, p), c), self.exit_val(inc[fb], fb, tb)))
            r = UNDEF
            for c, v in reversed(items):
                r = ite(c, v, r)
            self.vals[i] = X.strip_bot(r)

    def eval_loop(self, lp, preds, relf, entry=TRUE):
        h = lp.header
        _uid[0] += 1
        lp.uid = _uid[0]
        lp.kph = atom("kph", lp.uid, isint=True, dom=(0, None))
        lp.exitmap = {}
        phis = [i for i in h.instrs if i.op == "phi"]
        ph = []
        init = []
        for n, i in enumerate(phis):
            a = atom("phi", lp.uid, n, isint=i.ty.kind in ("int", "ptr"))
            ph.append(a)
            inc = {u: v for v, u in i.incoming}
            items = [(AND(relf(p), c), self.exit_val(inc[fb], fb, tb)) for p, c, fb, tb in preds if tb is h]
            r = UNDEF
            for c, v in reversed(items):
                r = ite(c, v, r)
            if len(items) == 1:
                r = items[0][1]
            init.append(r)
            self.vals[i] = at(a)
            if i.ty.kind == "ptr":
                # pointer induction: keep the base recognisable through the placeholder
                mark_ptr(a)
        self.curloops.append(lp)
        e0 = len(self.effects)
        exits, back, _ = self.eval_region(h, lp.blocks, lp)
        self.curloops.pop()
        nxt = []
        for i in phis:
            inc = {u: v for v, u in i.incoming}
            r = UNDEF
            if len(back) == 1:
                r = self.exit_val(inc[back[0][0]], back[0][0], h)
                if r.q is not None:
                    r = ite(back[0][1], r, UNDEF)       # of the iterations that go on
            else:
                for fb, c in back:
                    r = ite(c, self.exit_val(inc[fb], fb, h), r)
            nxt.append(X.strip_bot(r))
        sigma, exsig = self.solve(lp, ph, init, nxt)
        S = X.Subst(sigma)
        E = []
        for fb, tb, c, kind in exits:
            c = S.node(c)
            if c is not FALSE:
                E.append([fb, tb, c, kind])
                if kind == "bot":
                    raw = exits[len(E) - 1][2] if len(exits) == 1 else c
        kx = at(lp.kph)
        bots = [t for t in E if t[3] == "bot"]
        if bots and len(E) == len(bots) == 1 and len(back) == 1:
            # tested at the bottom: the same loop with the test of the previous iteration at the top
            t = bots[0]
            c = X.subst(t[2], {lp.kph: sub(kx, TRUE)})
            if AND(entry, X.subst(c, {lp.kph: FALSE})) is not FALSE:
                es = [e for e in self.effects[e0:] if e.kind != "mread"]
                if es and all(AND(raw, e.cond) is FALSE for e in es):
                    # the iteration that leaves does nothing else: the test belongs to its start
                    c = t[2]
                    t[3] = "top"
                    for e in es:
                        e.cond = X.strip_bot(ite(raw, UNDEF, e.cond))
                else:
                    c = AND(cmp("ge", kx, TRUE, True), c)
            t[2] = c
        else:
            for t in bots:
                t[3] = "top" if len(lp.blocks) == 1 and len(self.effects) == e0 else None
        head = [t for t in E if t[3]]
        none = FALSE
        for t in head:
            none = OR(none, X.subst(t[2], {lp.kph: FALSE}))
        me = at(atom("self", lp.depth, isint=True, dom=(0, None)))
        SK = X.Subst({lp.kph: me})
        keyed = []
        tc = None
        if len(head) == 1:
            tc = self.trip(head[0][2], lp.kph)
        for fb, tb, c, kind in E:
            cc = SK.node(c)
            if kind and tc is not None:
                # the header exit in canonical form: iteration number reaches the trip count
                cc = cmp("ge", me, tc, True)
            keyed.append((0 if kind else 1, cc, fb, tb, kind))
        keyed.sort(key=lambda t: (t[0], t[1].key))
        la = atom("loop", lp.depth, tuple((t[0], t[1]) for t in keyed))
        lp.atom = la
        kat = atom("k", la, isint=True, dom=(0, None))
        if tc is None:
            tc = at(atom("tc", la, isint=True, dom=(0, None)))
        lp.tc = tc
        final = {lp.kph: at(kat)}
        F1 = X.Subst(final)
        full = {a: F1.node(v) for a, v in sigma.items()}
        full[lp.kph] = at(kat)
        FS = X.Subst(full)
        tc = F1.node(tc)
        for e in self.effects[e0:]:
            e.cond = FS.node(e.cond)
            if e.addr is not None:
                e.addr = FS.node(e.addr)
            if e.val is not None:
                e.val = FS.node(e.val)
            if e.args is not None:
                e.args = [FS.node(x) for x in e.args]
            e.loops = (la,) + tuple(self._la(FS, x) for x in e.loops)
            e.tcs = (tc,) + tuple(FS.node(x) for x in e.tcs)
            e.uids = (lp.uid,) + e.uids
        outs = []
        for n, (ish, _, fb, tb, kind) in enumerate(keyed):
            if ish == 0:
                kx = tc
            else:
                kx = at(atom("kx", la, n, isint=True, dom=(0, None)))
            if kind == "bot":
                kx = sub(tc, TRUE)
            m = {}
            K = X.Subst({lp.kph: kx})
            for a, v in (exsig if kind == "top" else sigma).items():
                m[a] = K.node(v) if ish else K.node(F1m(v))
            m[lp.kph] = kx
            clamp = None
            if ish == 0 and not self.nonneg(tc):
                clamp = cmp("le", tc, FALSE, True)
            special = {}
            if kind == "bot":
                # the values the next iteration would start from
                K1 = X.Subst({lp.kph: tc})
                for j, a in enumerate(ph):
                    special[nxt[j]] = (K1.node(exsig[a]), init[j])
            elif ish == 0:
                for j, a in enumerate(ph):
                    special[at(a)] = (K.node(exsig[a]), init[j])
            lp.exitmap[(fb, tb)] = ExitMap(X.Subst(m), F1, special, clamp)
            if len(keyed) == 1:
                cnd = TRUE
            else:
                q = X.patom(atom("exitno", la, isint=True, dom=(0, len(keyed) - 1)))
                cnd = X._cmp_leaf("eq", q, X.pconst(n), True)
            outs.append((fb, tb, cnd))
        return outs, none

    def _la(self, S, a):
        n = S.atom(a)
        if n.q is None and len(n.leaf.t) == 1 and n.leaf.t[0][0]:
            return n.leaf.t[0][0][0][0]
        return a

    def trip(self, c, k):
        """c: exit condition as a function of the placeholder k; smallest k >= 0 making it true, when affine"""
        if c.q is None:
            return None
        D = 1
        for _, cf in c.q.t:
            D = D * cf.denominator // math.gcd(D, cf.denominator)
        q = X.pscale(c.q, Q(D))
        cuts = [v * D for v, _ in c.cuts]
        coef = None
        sym = {}
        rest = {}
        for m, cc in q.t:
            ats = [a for a, e in m]
            if k in ats:
                if dict(m)[k] != 1:
                    return None
                if len(m) == 1:
                    coef = cc
                else:
                    sym[tuple((a, e) for a, e in m if a is not k)] = cc
            else:
                rest[m] = cc
        if coef is None and not sym:
            if k.key in X.atoms_of(c.q):
                return None
            kids = [FALSE if x is TRUE else self.trip(x, k) for x in c.kids]     # the bound is chosen before the loop
            return None if any(x is None for x in kids) else X._rebuild(c.q, c.cuts, kids)
        r = X.mkpoly(rest)
        if k.key in X.atoms_of(r):
            return None
        g = X.free_test(c, lambda x: k.key in X.atoms_of(x))
        if g is not None:       # (the same, with that test further down)
            kids = [self.trip(X.restrict(c, g, i), k) for i in range(len(g.kids))]
            return None if any(x is None for x in kids) else X._rebuild(g.q, g.cuts, kids)
        if sym:
            if coef is not None:
                sym[()] = coef
            return self.trip_by(c, cuts, X.mkpoly(sym), r)
        if abs(coef) != 1:
            return self.trip_step(c, cuts, coef, r)
        if not X.isint_poly(q):
            return None
        if any(kk not in (TRUE, FALSE) for kk in c.kids):
            return None
        pat = [kk is TRUE for kk in c.kids]
        if len(cuts) == 1:
            m = X.pconst(cuts[0])
            if pat == [False, True] and coef == 1:      # exits when k + r >= m
                return L(X.padd(m, r, -1))
            if pat == [True, False] and coef == -1:     # exits when r - k < m
                return L(X.padd(X.padd(r, m, -1), X.ONE))
            return None
        if len(cuts) == 2 and pat == [False, True, False] and cuts[1] - cuts[0] == 1:
            m = X.pconst(cuts[0])
            return L(X.padd(m, r, -1)) if coef == 1 else L(X.padd(r, m, -1))
        return None

    def trip_by(self, c, cuts, step, r):
        """counting in symbolic steps of at least one"""
        if any(kk not in (TRUE, FALSE) for kk in c.kids) or len(cuts) != 1 or not X.isint_poly(r) or not X.isint_poly(step):
            return None
        pat = [kk is TRUE for kk in c.kids]
        m = X.pconst(cuts[0])
        if pat == [False, True]:
            d, s = X.padd(m, r, -1), step
        elif pat == [True, False]:
            d, s = X.padd(X.padd(r, m, -1), X.ONE), X.pneg(step)
        else:
            return None
        lo = X.lower(s)
        if lo is None or lo < 1 or X.lower(d) is None or X.lower(d) < 0:
            return None
        return fn("sdiv", L(X.padd(X.padd(d, s), X.ONE, -1)), L(s))

    def trip_step(self, c, cuts, coef, r):
        """counting in steps of `coef`: smallest k >= 0 with coef*k + r at the exit side"""
        if any(kk not in (TRUE, FALSE) for kk in c.kids) or not X.isint_poly(r) or coef.denominator != 1:
            return None
        pat = [kk is TRUE for kk in c.kids]
        m = X.pconst(cuts[0])
        if len(cuts) == 1 and pat == [False, True] and coef > 0:
            d, s = X.padd(m, r, -1), int(coef)
        elif len(cuts) == 1 and pat == [True, False] and coef < 0:
            d, s = X.padd(X.padd(r, m, -1), X.ONE), -int(coef)
        elif len(cuts) == 2 and pat == [False, True, False]:
            d, s = (X.padd(m, r, -1), int(coef)) if coef > 0 else (X.padd(r, m, -1), -int(coef))
        else:
            return None
        return fn("sdiv", L(X.padd(d, X.pconst(s - 1 if len(cuts) == 1 else 0))), num(s))

    def solve(self, lp, ph, init, nxt):
        k = at(lp.kph)
        sigma = {}
        exsig = {}
        un = list(range(len(ph)))
        phkeys = {a.key for a in ph}
        progress = True
        while progress and un:
            progress = False
            for n in list(un):
                nx = X.subst(nxt[n], sigma) if sigma else nxt[n]
                p = ph[n]
                ks = X.atoms_of(nx)
                if any(ph[m].key in ks for m in un if m != n):
                    continue
                if p.key not in ks:
                    # the value of the previous iteration's expression
                    g = X.subst(nx, {lp.kph: sub(k, TRUE)})
                    if X.subst(nx, {lp.kph: num(-1)}) is init[n]:
                        v = g
                    else:
                        v = ite(cmp("eq", k, FALSE, True), init[n], g)
                    sigma[p] = v
                    exsig[p] = v
                    un.remove(n)
                    progress = True
                    continue
                d = sub(nx, at(p))
                ds = X.atoms_of(d)
                if p.key in ds:
                    continue
                if any(kk == "NBOT" for kk in ds):
                    pass
                if lp.kph.key not in ds:
                    v = add(init[n], mul(k, d))
                    sigma[p] = v
                    exsig[p] = v
                else:
                    if p.isint and d.q is None:
                        cl = self.poly_sum(d.leaf, lp.kph)
                        if cl is not None:
                            sigma[p] = add(init[n], L(cl))
                            exsig[p] = sigma[p]
                            un.remove(n)
                            progress = True
                            continue
                    sigma[p] = add(init[n], X.mksum(k, lp.kph, d, p.isint))
                    exsig[p] = sigma[p]
                un.remove(n)
                progress = True
        if un:
            # canonical recurrence for the rest
            anon = {ph[m]: at(atom("muself", lp.depth, "?", isint=ph[m].isint)) for m in un}
            A = X.Subst(anon)
            nx = {}
            for m in un:
                nx[m] = X.subst(nxt[m], sigma) if sigma else nxt[m]
            keys = {m: (init[m].key, A.node(nx[m]).key) for m in un}
            # dependency closure: only the recurrences a given one needs
            for m in un:
                need, work = [], [m]
                while work:
                    x = work.pop()
                    if x in need:
                        continue
                    need.append(x)
                    ks = X.atoms_of(nx[x])
                    work += [y for y in un if ph[y].key in ks and y not in need]
                rest = sorted(need[1:], key=lambda y: keys[y])
                R = X.Subst({ph[y]: at(atom("muself", lp.depth, n_, isint=ph[y].isint))
                             for n_, y in enumerate([m] + rest)})
                sysd = tuple((init[y], R.node(nx[y])) for y in [m] + rest)
                for tag, dst in (("mu", sigma), ("mux", exsig)):
                    a_ = atom(tag, lp.kph, sysd, isint=ph[m].isint)
                    if ph[m].key in PTR:
                        mark_ptr(a_)
                    dst[ph[m]] = X.mkmu(a_)
        return sigma, exsig

    def poly_sum(self, d, k):
        """sum_{j<k} d(j) for d polynomial of degree 1 in k (integers)"""
        c0, c1 = {}, {}
        for m, c in d.t:
            if any(a is k for a, e in m):
                if any(a is k and e == 1 for a, e in m):
                    mm = tuple((a, e) for a, e in m if a is not k)
                    c1[mm] = c1.get(mm, 0) + c
                else:
                    return None
            else:
                c0[m] = c
            for a, e in m:
                if a is not k and k.key in X.atoms_of(a):
                    return None
        kp = X.patom(k)
        tri = X.pscale(X.padd(X.pmul(kp, kp), kp, -1), Q(1, 2))
        return X.padd(X.pmul(X.mkpoly(c0), kp), X.pmul(X.mkpoly(c1), tri))

    def finish(self):
        for n, e in enumerate(self.effects):
            e.seq = n


def F1m(v):
    return v


class ExitMap:
    """values on a loop exit: closed forms at the exit iteration; a loop that does not run leaves the initial values"""

    def __init__(self, sub_, fin, special, clamp):
        self.sub, self.fin, self.special, self.clamp = sub_, fin, special, clamp

    def node(self, n):
        s = self.special.get(n)
        if s is not None:
            v, i = s
            v = self.fin.node(v)
            return ite(self.clamp, i, v) if self.clamp is not None else v
        return self.fin.node(self.sub.node(n))
