"""The Octave interface with matrix objects tracked through the function: what a matrix object holds when it is asked, and whether
the storage a pointer refers to is still owned by some matrix when it is used."""
from . import compose, gsa, octave, expr as X
from .expr import at, atom, TRUE, FALSE, UNDEF, num
from .octave import pin

MATS = ("Array", "Matrix", "FloatMatrix", "NDArray", "MArray", "FloatNDArray", "ColumnVector", "RowVector")
READS = ("rows", "cols", "numel", "data")


class Flow(octave.Calls):
    """on_call and on_read hooks"""

    def __init__(self, module, base=compose.numeric_call):
        super().__init__(module, base)
        self.places = {}
        self.values = {}        # octave_value objects made by the binding

    def place(self, n):
        """(object, offset) of an address"""
        if n.q is not None:
            return None
        b, off = gsa.base_of(n.leaf)
        c = None if b is None else off.const()
        return None if c is None else (b, int(c))

    def mput(self, S, i, where, what, args=()):
        S.effect("mput", i, addr=where, name=what, args=list(args))

    def ask(self, S, i, where, field):
        k = self.place(where)
        if k is None:
            return None
        e = S.effect("mget", i, addr=where, name=field)
        p = pin("mq", self.places.setdefault(k, len(self.places)), e.seq, field, dom=None if field == "data" else (0, None), ptr=field == "data")
        e.val = p
        return p

    def read(self, S, i, a):
        for p in leaves(a):
            b, _ = gsa.base_of(p)
            if b is not None and b.kind == "sym" and b.args[0] in ("mq", "data"):
                S.effect("mread", i, addr=a, name="read")
                return

    def __call__(self, S, i, name, args):
        d = compose.dname(name)
        sh = compose.short(d)
        last = sh.split("::")[-1]
        cls = sh.split("::")[-2] if "::" in sh else ""
        cls = cls.split("<")[0]
        last0 = last.split("<")[0] if not last.startswith("operator") else last
        if cls == "octave_value":
            if last in ("matrix_value", "float_matrix_value", "array_value", "vector_value", "row_vector_value", "column_vector_value"):
                k = self.value(args[1])
                if k is not None:
                    self.mput(S, i, args[0], ("arg", k, last.startswith("float")))
                    return FALSE
                return None
            if last == "octave_value" and len(args) >= 2:
                t = compose.split_args(d)[0]
                if self.value(args[1]) is None:
                    S.effect("vput", i, addr=args[0], name=t, args=args[1:])
                    return FALSE
            if last == "operator=" and len(args) == 2 and args[0].q is None:
                b, off = gsa.base_of(args[0].leaf)
                if b is not None and b.kind == "sym" and b.args[0] == "outval" and off is X.ZERO:
                    S.effect("outset", i, addr=args[0], args=[num(b.args[1]), args[1]], name="outset")
                    return args[0]
        if cls == "octave_value_list":
            if last == "append":
                S.effect("append", i, addr=args[0], args=args[1:], name="append")
                return args[0]
            if last.startswith("operator") and len(args) == 2 and not self.is_args(args[0]):
                k = args[1].leaf.const() if args[1].q is None else None
                if k is not None:
                    return pin("outval", int(k), ptr=True)
            if last == "octave_value_list" and len(args) == 1:
                return FALSE
        if cls in MATS:
            if last.startswith("~"):
                S.effect("mdead", i, addr=args[0], name="~")
                return FALSE
            if last == cls and len(args) == 1:
                self.mput(S, i, args[0], ("empty",))
                return FALSE
            ts = compose.split_args(d)
            if last == cls and ts and "(" not in ts[0]:
                t = ts[0].replace("const", "").strip(" &")
                if t.split("<")[0] in MATS and len(ts) == 1:
                    self.mput(S, i, args[0], ("copy",), args[1:2])
                    return FALSE
                if t in ("long", "int", "unsigned long", "octave_idx_type") and len(args) >= 3:
                    self.new.append((last, args[1], args[2], S.ktuple()))
                    self.mput(S, i, args[0], ("new", len(self.new) - 1))
                    S.effect("call", i, args=args[1:], name="new matrix", val=FALSE)
                    if len(args) > 3:
                        S.effect("fill", i, args=args[1:], name="fill", addr=pin("out", len(self.new) - 1, ptr=True))
                    return FALSE
            if last == "operator=" and len(args) == 2:
                self.mput(S, i, args[0], ("copy",), args[1:2])
                return args[0]
            f = {"rows": "rows", "dim1": "rows", "cols": "cols", "columns": "cols", "dim2": "cols", "numel": "numel", "data": "data",
                 "fortran_vec": "data"}.get(last)
            if f == "numel":
                a, b = self.ask(S, i, args[0], "rows"), self.ask(S, i, args[0], "cols")
                return None if a is None else X.mul(a, b)
            if f:
                return self.ask(S, i, args[0], f)
            if last in ("operator()", "elem", "xelem", "checkelem") and len(args) in (2, 3) and i.ty.kind == "ptr":
                p = self.ask(S, i, args[0], "data")
                if p is not None:
                    x = args[1]
                    if len(args) == 3:
                        x = X.add(x, X.mul(args[2], self.ask(S, i, args[0], "rows")))
                    return X.add(p, X.mul(num(8), x))
        if cls == "octave_value":
            k = self.value(args[0]) if args else None
            if k is not None and last in ("numel", "length"):
                return X.mul(pin("rows", k, dom=(0, None)), pin("cols", k, dom=(0, None)))
        if "std::__copy_move<" in d and last.startswith("__copy_m") and len(args) == 3:
            n = X.sub(args[1], args[0])
            S.effect("memcpy", i, addr=args[2], args=[args[0], n])
            return X.add(args[2], n)
        if "std::__copy_move<" in d and "__assign_one<double" in d and len(args) == 2:
            S.effect("memcpy", i, addr=args[0], args=[args[1], num(8)])
            return FALSE
        if cls == "unique_ptr" and args:
            o = self.place(args[0])
            if o is not None:
                if last in ("get", "operator[]"):
                    p = pin("buf", self.places.setdefault(o, len(self.places)), ptr=True, dom=(1, None))
                    return p if len(args) == 1 else X.add(p, X.mul(num(8), args[1]))
                return FALSE
        if cls == "vector" and args:
            o = self.place(args[0])
            if o is not None:
                if last in ("data", "operator[]", "at"):
                    p = pin("buf", self.places.setdefault(o, len(self.places)), ptr=True, dom=(1, None))
                    return p if len(args) == 1 else X.add(p, X.mul(num(8), args[1]))
                if last == "vector" or last.startswith("~"):
                    return FALSE
        return super().__call__(S, i, name, args)


class State:
    """the effects with every question to a matrix object answered"""

    def __init__(self, S, h, extra=()):
        self.h = h
        self.sb = X.Subst(dict(extra))      # a question's answer is entered before anything that contains it is looked at
        self.reps = {}          # put -> [(cond, what)] with what = ("arg", k, float, rep) ...
        self.puts = {}          # place -> [effect]
        self.bad = []
        self.unknown = []
        self.conds = {}
        self.effects = []
        self.deaths = {}
        for e in S.effects:
            if e.kind not in ("mput", "mget", "mdead"):
                continue
            c = self.conds[e] = self.sub(e.cond)
            k = h.place(e.addr)
            if k is None:
                self.unknown.append(e)
                continue
            if e.kind == "mput":
                self.deaths.setdefault(k, []).append(e)
                self.puts.setdefault(k, []).append(e)
                self.reps[e] = self.meaning(e)
            elif e.kind == "mdead":
                self.deaths.setdefault(k, []).append(e)
            else:
                a = e.val.leaf.t[0][0][0][0]
                self.sb.m[a.key] = self.answer(k, e, e.name, c)
        self.S = S

    def meaning(self, e):
        w = e.name
        if w[0] == "arg":
            return [(TRUE, w + (e.seq,))]
        if w[0] == "copy":
            k = self.h.place(e.args[0])
            return self.held(k, e, self.conds[e]) if k is not None else []
        return [(TRUE, w)]

    def held(self, k, e, use):
        """[(condition, what the object holds at effect e)]"""
        out = []
        rest = use
        for p in reversed(self.puts.get(k, ())):
            if p.seq >= e.seq:
                continue
            c = self.conds[p]
            here = X.AND(rest, c)
            if here is FALSE:
                continue
            for c2, w in self.reps[p]:
                x = X.AND(c, c2)
                out.append((x, w))
            rest = X.AND(rest, X.NOT(c))
            if rest is FALSE:
                break
        return out

    def answer(self, k, e, field, use):
        hs = self.held(k, e, use)
        vals = [(c, self.field(w, field)) for c, w in hs]
        if not vals:
            return e.val
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = X.ite(c, v, r)
        return r

    def field(self, w, f):
        if w[0] == "arg":
            if f == "data":
                return pin("data", w[1], w[3], ptr=True) if not w[2] else pin("fdata", w[1], w[3], ptr=True)
            return pin(f, w[1], dom=(0, None))
        if w[0] == "new":
            _, r, c, _ = self.h.new[w[1]]
            if f == "data":
                return pin("out", w[1], ptr=True)
            return self.sub(r if f == "rows" else c)
        return num(0)

    def sub(self, n):
        return self.sb.node(n)

    # -- lifetime ----------------------------------------------------------------------------------
    def owners(self):
        """rep -> [(put, condition under which it makes its object an owner)]"""
        out = {}
        for k, ps in self.puts.items():
            for p in ps:
                for c, w in self.reps[p]:
                    if w[0] == "arg":
                        out.setdefault(w[3], []).append((k, p, X.AND(self.conds[p], c)))
        return out

    def dangling(self, more=()):
        """uses of an argument's elements whose storage no matrix holds any more; more: (effect, values kept there, seq of their last use)"""
        own = self.owners()
        n, bad = 0, []
        for e, uses, when in [(e, None, e.seq) for e in self.S.effects] + list(more):
            if uses is not None:
                pass
            elif e.kind == "mread":
                uses = [e.addr]
            elif e.kind == "memcpy":
                uses = list(e.args[:1])
            elif e.kind == "call":
                uses = list(e.args or ())
            reps = {}
            for a in uses or ():
                if a is None:
                    continue
                sel = {}
                _arrays.collect(self.sub(a), TRUE, sel)
                for p, c in sel.items():
                    b = None if p is X.BOT else gsa.base_of(p)[0]
                    if b is not None and b.kind == "sym" and b.args[0] in ("data", "fdata") and len(b.args) > 2:
                        reps[b.args[2]] = b, X.OR(c, reps.get(b.args[2], (b, FALSE))[1])
            for r, (b, c) in reps.items():
                n += 1
                c = X.AND(c, self.sub(e.cond))
                alive = FALSE
                for k, p, oc in own.get(r, ()):
                    if p.seq >= when:
                        continue
                    dead = FALSE
                    for dth in self.deaths.get(k, ()):
                        if p.seq < dth.seq < when:
                            dead = X.OR(dead, self.conds[dth])
                    alive = X.OR(alive, X.AND(oc, X.NOT(dead)))
                if X.AND(c, X.NOT(alive)) is not FALSE:
                    bad.append((e, b.args[1]))
        return n, bad


def leaves(n):
    from .status import leaves as f
    return f(n)


def binding(u, fn, base=compose.numeric_call):
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    h = Flow(u.m, base)
    F.mod.body(F)
    return gsa.Summary(F, params=octave.params(F), on_call=h, on_read=h.read, tag="E", arrays=True, exits=True), h


class Outcome:
    """what a binding that calls one computing method does: Engine over the resolved effects, with the state at the call"""

    def __init__(self, u, fn, method, facts=(), base=compose.numeric_call, given=None, out=-2, make=None, pick=None, ty="double", state=None):
        """out: the argument the method writes its result through; given: the condition under which everything but the condition of the method's call is looked at"""
        from . import arrays
        self.given = given
        self.out = out
        self.ty = ty
        self.memo = {}
        self.S, self.h = (make or binding)(u, fn, base)
        self.m = {}
        S = self.S
        seen = set()
        for e in S.effects:
            for n in [e.cond, e.val, e.addr] + list(e.args or ()):
                if isinstance(n, X.Node):
                    seen.update(X.atomset(n))
        n = atom("sym", "nrhs", isint=True, dom=(0, None))
        for a in seen:
            if a.kind == "fn" and a.args[0] == "trunc32" and a.args[1] == X.patom(n):
                self.m[a] = at(n)
            if a.kind == "ld" and isinstance(a.args[0], X.Poly):
                b, off = gsa.base_of(a.args[0])
                if b is not None and b.kind == "glob" and a.args[2][:1] == ("atomic",):
                    self.m[a] = TRUE            # the run flag: nobody aborts
                if b is not None and b.kind == "sym" and b.args[0] == "dimref" and off is X.ZERO:
                    self.m[a] = pin(b.args[2], b.args[1], dom=(0, None))
            if a.kind == "sym" and a.args[0] == "scalar":
                self.m[a] = elem(a.args[1], 0)
            if a.kind == "ret" and "is_running" in str(a.args[0]):
                self.m[a] = TRUE
        self.st = (state or State)(S, self.h, self.m)
        drop = {}
        for ws in self.st.reps.values():
            for _, w in ws:
                if w[0] == "arg":
                    drop[self.st.field(w, "data").leaf.t[0][0][0][0]] = pin("fdata" if w[2] else "data", w[1], ptr=True)
        self.drop = X.Subst(drop)
        self.eff = []
        for e in S.effects:
            g = gsa.Effect()
            for s in gsa.Effect.__slots__:
                setattr(g, s, getattr(e, s, None))
            g.cond = self.under(self.fix(e.cond))
            g.addr = self.under(self.fix(e.addr))
            g.loops = self.drop.mapany(self.st.sb.mapany(e.loops))
            g.tcs = tuple(self.under(self.fix(t)) for t in e.tcs)
            g.val = self.under(self.fix(e.val))
            if e.args is not None:
                g.args = [self.under(self.fix(a)) if isinstance(a, X.Node) else a for a in e.args]
            self.eff.append(g)
        self.whole = {g: self.fix(e.cond) for e, g in zip(S.effects, self.eff)}     # conditions as they are
        self.eff_all = self.eff
        self.calls = [e for e in self.eff if e.kind == "call" and (pick(compose.dname(e.name)) if pick else
                                                                  compose.short(compose.dname(e.name)).split("::")[-1] == method)]
        self.saved = {}

        def model(eng, e, state, loops):
            if e.kind == "call" and e in self.calls:
                self.saved[e] = state
                for p in () if self.out is None else set(leaves(self.under(eng.addr.node(e.args[self.out])))):
                    b, off = gsa.base_of(p)
                    if b is not None and b.kind == "sym" and b.args[0] == "out":
                        _, r, c, _ = self.h.new[b.args[1]]
                        n = self.under(eng.addr.node(X.mul(self.under(self.fix(r)), self.under(self.fix(c)))))
                        state = arrays.write_range(eng, e, state, loops, b, off, n, lambda k: at(atom("sym", "response", k.leaf)), ty=self.ty)
                return state
            if e.kind == "memcpy":
                return None
            if e.kind == "fill":
                b, off = gsa.base_of(e.addr.leaf)
                return arrays.write_range(eng, e, state, loops, b, off, self.under(eng.addr.node(X.mul(e.args[0], e.args[1]))), lambda k: e.args[2], cond=e.cond)
            return None
        self.E = Copying(self.eff, init=self.init, model=model, facts=facts)

    def fix(self, n):
        if not isinstance(n, X.Node):
            return n
        return self.drop.node(self.st.sub(n))

    def under(self, n):
        """simplified for where the given condition holds"""
        if self.given is None or not isinstance(n, X.Node):
            return n
        r = self.memo.get(n)
        if r is None:
            r = X.strip_bot(X.ite(self.given, n, UNDEF))
            if r is UNDEF:
                r = FALSE
            self.memo[n] = r
        return r

    def init(self, b):
        if b.kind == "sym" and b.args[0] == "buf":
            return "zero"
        if b.kind == "heap":
            return self.S.heap[b.args[1]]
        if b.kind == "alloca" or b.kind == "sym" and b.args[0] == "out":
            return "uninit"
        return "param"

    def node(self, n):
        """a value with the loads of local memory resolved"""
        return self.E.final.node(n)

    def at_call(self, call, p, off, ty=None):
        from . import arrays
        ty = ty or self.ty
        b, o = gsa.base_of(p)
        return self.E.read(arrays.chain(self.E, self.saved[call], b), X.padd(o, off), ty, {})

    def at_end(self, p, off, ty=None):
        from . import arrays
        ty = ty or self.ty
        b, o = gsa.base_of(p)
        return self.E.read(arrays.chain(self.E, self.E.state, b), X.padd(o, off), ty, {})

    def outputs(self):
        """[(cond, what)] appended to the result list, in order; what = ("new", n) or ("value", node)"""
        out = []
        for e, g in zip(self.S.effects, self.eff_all):
            if e.kind not in ("append", "outset"):
                continue
            at_ = int(e.args[0].leaf.const()) if e.kind == "outset" else len(out)
            out.append((at_, (self.whole[g], self.shown(e.args[-1], e), e)))
        out.sort(key=lambda x: x[0])
        if [k for k, _ in out] != list(range(len(out))):
            raise compose.AnalysisError("the list of returned values is filled in an unknown way")
        return [x for _, x in out]

    def shown(self, v, e):
        k = self.h.place(v)
        for p in reversed(self.S.effects[:e.seq]):
            if p.kind == "vput" and self.h.place(p.addr) == k:
                g = self.eff_all[p.seq]
                t = p.name.replace("const", "").strip(" &")
                if t.split("<")[0] in MATS:
                    hs = self.st.held(self.h.place(p.args[0]), p, self.st.sub(p.cond))
                    return ("held", hs)
                return ("value", g.args[0])
        return None


def elem(k, j, ty="double", of="data"):
    d = atom("sym", of, k, isint=True)
    gsa.mark_ptr(d)
    j = j if isinstance(j, X.Poly) else X.pconst(8 * j)
    return at(atom("ld", X.padd(X.patom(d), j), ty, ()))


from . import arrays as _arrays


class Copying(_arrays.Engine):
    """copies of symbolic extent are expanded; what is read through a pointer that has no value has none either"""

    def read_at(self, state, p, ty, env):
        if gsa.base_of(p)[0] is None and any(a.kind == "uninit" for a in p.atoms()):
            return at(atom("uninit", ty, isint=ty in ("i64", "ptr")))
        return super().read_at(state, p, ty, env)

    def apply(self, e, state, loops):
        if e.cond is FALSE:
            return state
        if e.kind in ("store", "acc"):
            a = self.addr.node(e.addr)
            if a.q is not None:
                a = X.ite(e.cond, a, UNDEF)
                one = leaves(a)
                e.addr = X.L(one[0]) if len(set(one)) == 1 else a
        if e.kind == "memcpy":
            n = e.args[-1]
            c = n.leaf.const() if n.q is None else None
            if c is None or c % 8 or c > 512:
                a = self.addr.node(e.addr)
                s = self.addr.node(e.args[0])
                if a.q is None and s.q is None:
                    b, off = gsa.base_of(a.leaf)
                    words = X.div(n, num(8))
                    tag = ("v", e.seq, e.uids, tuple(i.kat for i in loops))

                    def val(k):
                        return X.apply(lambda p: at(atom("ld", X.padd(s.leaf, X.pscale(p, 8)), "double", tag)), k)
                    return _arrays.write_range(self, e, state, loops, b, off, words, val, cond=e.cond)
        return super().apply(e, state, loops)
