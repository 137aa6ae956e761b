"""The part of pybind11 the Python bindings use, in the terms of sa/octflow.py: parameters are pins, arrays made by the binding are
matrices."""
from . import compose, gsa, octflow, expr as X
from .expr import at, atom, TRUE, FALSE, UNDEF, num
from .octave import pin

INTS = ("long", "unsigned long", "int", "unsigned int", "long long", "unsigned long long")
SHAPE = 64          # offset of the vector of extents in a buffer_info, found by layout()


class Flow(octflow.Flow):
    def __init__(self, module, base=compose.numeric_call, dims=None):
        super().__init__(module, base)
        self.infos = {}         # place of a buffer_info -> ("arg", k) or ("new", n)
        self.lists_ = {}        # place of a container of extents -> [extent]
        self.dims = dims or {}  # parameter -> its number of dimensions (2)
        self.arrays_ = {}       # place of an array made here -> number
        self.flat = set()       # those of one dimension

    # -- what is loaded ------------------------------------------------------------------------------
    def load(self, S, i, p):
        b, off = gsa.base_of(p)
        c = None if b is None else off.const()
        if c is None:
            return None
        c = int(c)
        if b.kind == "sym" and b.args[0] == "extent" and c == 0:
            return self.extent(b.args[1], b.args[2])
        if (b, c) in self.infos and i.ty.kind == "ptr":
            return self.data(self.infos[(b, c)])
        if (b, c - 16) in self.infos:
            w = self.infos[(b, c - 16)]
            return X.mul(self.extent(w, 0), self.extent(w, 1))
        if (b, c - 56) in self.infos:
            return num(self.ndim(self.infos[(b, c - 56)]))
        return None

    def loader(self):
        def f(S, i, p):
            return self.load(S, i, p)
        f.local = True
        return f

    def ndim(self, w):
        return self.dims.get(w[1], 2) if w[0] == "arg" else 1 if w[1] in self.flat else 2

    def extent(self, w, j):
        if w[0] == "new":
            return self.new[w[1]][1 + j] if j < self.ndim(w) else None
        if j >= self.ndim(w):
            return pin("no such extent", w[1], j)
        return pin(("rows", "cols", "pages")[j], w[1], dom=(0, None))

    def data(self, w):
        return pin("data" if w[0] == "arg" else "out", w[1], ptr=True)

    def what(self, n):
        """the array an object or parameter is"""
        b = self.obj(n)
        if b is not None and b.kind == "sym" and b.args[0] == "val":
            return ("arg", b.args[1])
        k = self.place(n)
        return ("new", self.arrays_[k]) if k in self.arrays_ else None

    # -- calls ---------------------------------------------------------------------------------------
    def __call__(self, S, i, name, args):
        d = compose.dname(name)
        sh = compose.short(d)
        parts = [p.split("<")[0] for p in sh.split("::")]
        last, cls = parts[-1], parts[-2] if len(parts) > 1 else ""
        if cls == "buffer" and last == "request":
            w = self.what(args[1])
            if w is None:
                return None
            self.infos[self.place(args[0])] = w
            return FALSE
        if cls == "buffer_info" and last in ("buffer_info", "~buffer_info"):
            k = self.place(args[1]) if last == "buffer_info" and len(args) == 2 else None
            if k is not None and k in self.infos:
                self.infos[self.place(args[0])] = self.infos[k]
            elif last == "buffer_info":
                return None
            return FALSE
        if cls == "vector" and args:
            k = self.place(args[0])
            if k is not None and (k[0], k[1] - SHAPE) in self.infos:
                w = self.infos[(k[0], k[1] - SHAPE)]
                if last in ("operator[]", "at") or last.startswith("operator"):
                    return self.element(S, i, w, args[1])
                if last in ("front", "begin", "data"):
                    return self.element(S, i, w, num(0))
                if last == "size":
                    return num(self.ndim(w))
        if cls in ("array", "array_t"):
            if last == cls and len(args) >= 2:
                k = self.place(args[1])
                if k in self.lists_:
                    r = self.lists_[k]
                    if len(r) != 2:
                        return None
                    return self.make(S, i, args[0], r[0], r[1])
                t = compose.split_args(d)[0]
                if t in INTS:
                    return self.make(S, i, args[0], args[1], num(1), 1)
                w = self.what(args[1])
                if w is not None and w[0] == "new":
                    self.arrays_[self.place(args[0])] = w[1]
                    self.mput(S, i, args[0], ("copy",), args[1:2])
                    return FALSE
                return None
            w = self.what(args[0]) if args else None
            if w is not None:
                if last in ("shape", "extent") and len(args) == 2 and i.ty.kind != "ptr":
                    j = args[1].leaf.const() if args[1].q is None else None
                    return None if j is None else self.extent(w, int(j))
                if last == "shape" and len(args) == 1:
                    return self.element(S, i, w, num(0))
                if last == "ndim":
                    return num(self.ndim(w))
                if last == "size" and len(args) == 1:
                    return X.mul(self.extent(w, 0), self.extent(w, 1))
                if last in ("data", "mutable_data") and len(args) == 1:
                    return self.data(w)
                if last in ("at", "mutable_at") and i.ty.kind == "ptr":
                    x = args[1]
                    if len(args) == 3:
                        x = X.add(x, X.mul(args[2], self.extent(w, 0)))
                    return X.add(self.data(w), X.mul(num(8), x))
            if last.startswith("~"):
                return FALSE
        if cls == "any_container":
            if last.startswith("~"):
                return FALSE
            if last == cls and len(args) == 2 and "initializer_list" in d:
                b, off = gsa.base_of(args[1].leaf)
                ld = lambda p, ty: at(self.mark(atom("ld", p, ty, S.vtag(), isint=True), ty))
                first, n = ld(args[1].leaf, "ptr"), ld(X.padd(args[1].leaf, X.pconst(8)), "i64")
                e = S.effect("call", i, args=args, name=name, val=FALSE)
                self.lists_[self.place(args[0])] = [ld(X.padd(first.leaf, X.pconst(8 * j)), "i64") for j in range(2)]
                return FALSE
        if parts[-1] in ("handle", "object", "~handle", "~object", "dtype", "~dtype") or cls in ("handle", "object"):
            return FALSE
        return super().__call__(S, i, name, args)

    @staticmethod
    def mark(a, ty):
        return gsa.mark_ptr(a) if ty == "ptr" else a

    def element(self, S, i, w, j):
        c = j.leaf.const() if j.q is None else None
        if c is None:
            return None
        S.effect("extent", i, name=(w, int(c)))
        return pin("extent", w, int(c), ptr=True)

    def make(self, S, i, where, r, c, nd=2):
        self.flat |= {len(self.new)} if nd == 1 else set()
        self.new.append(("array", r, c, S.ktuple()))
        n = len(self.new) - 1
        self.arrays_[self.place(where)] = n
        self.mput(S, i, where, ("new", n))
        S.effect("call", i, args=[r, c], name="new array", val=FALSE)
        return FALSE


def params(F, h):
    """sret, then the parameters by their types"""
    ps = []
    k = 0
    for n, p in enumerate(F.params):
        if n == 0:
            ps.append(at(gsa.mark_ptr(atom("arg", 0, isint=True))))
            continue
        if p.ty.kind == "ptr":
            d = h.kinds[n - 1]
            x = pin("val", k, ptr=True) if d == "array" else pin("strobj", k, ptr=True)
            if d == "string":
                h.put(x, ("string", k))
            ps.append(x)
        else:
            ps.append(pin("scalar", k, isint=False))
        k += 1
    return ps


def binding(u, fn, base=compose.numeric_call, dims=None, flow=Flow):
    F = u.one(rf"^py_{fn}\(pybind11|^\S.* py_{fn}<\w+>\(pybind11")
    h = flow(u.m, base, dims)
    ts = compose.split_args(F.dem)
    h.kinds = ["array" if "array_t" in t else "string" if "basic_string" in t or "std::string" in t else "value" for t in ts]
    F.mod.body(F)
    return gsa.Summary(F, params=params(F, h), on_call=h, on_read=h.read, on_load=h.loader(), tag="E", arrays=True, exits=True), h
