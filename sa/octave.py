"""The part of the Octave interface the bindings use, interpreted: what a value read from an input argument is."""
import hashlib
import re
from . import compose, gsa, llvm, expr as X
from .expr import at, atom, TRUE, FALSE, num


def pin(name, *a, dom=None, isint=True, ptr=False):
    x = atom("sym", name, *a, dom=dom, isint=isint)
    if ptr:
        gsa.mark_ptr(x)
    return at(x)


def text(m, v):
    """contents of a constant string"""
    if v.q is not None:
        return None
    b, off = gsa.base_of(v.leaf)
    if b is None or b.kind != "glob" or off.t:
        return None
    ini = m.global_init(b.args[0])
    if ini is None:
        return None
    if isinstance(ini.extra, bytes):
        return ini.extra.split(b"\0")[0].decode("utf8", "replace")
    return "" if ini.k == "zero" else None


def word(t):
    """a number for a text (so that comparisons of one argument with different texts exclude each other)"""
    return int(hashlib.md5(t.encode()).hexdigest()[:8], 16)


class Calls:
    """on_call hook. origin: local object -> what it holds"""

    def __init__(self, module, base=compose.numeric_call):
        self.m = module
        self.base = base
        self.origin = {}
        self.lists = {}
        self.new = []           # matrices made by the binding

    def obj(self, n):
        if n.q is not None:
            return None
        b, off = gsa.base_of(n.leaf)
        if b is None or off.t:
            return None
        return b

    def put(self, n, what):
        b = self.obj(n)
        if b is not None:
            if b in self.origin and self.origin[b] != what:
                what = None
            self.origin[b] = what

    def get(self, n):
        b = self.obj(n)
        return None if b is None else self.origin.get(b)

    def value(self, n):
        """argument number of an octave_value address"""
        b = self.obj(n)
        if b is not None and b.kind == "sym" and b.args[0] == "val":
            return b.args[1]
        w = self.get(n)
        return w[1] if w and w[0] == "val" else None

    def is_args(self, n):
        b = self.obj(n)
        return b is not None and (b.kind == "arg" and b.args[0] == 0 or self.origin.get(b) == ("args",))

    def __call__(self, S, i, name, args):
        d = compose.dname(name)
        q = compose.qual(d)
        sh = compose.short(d)
        last = sh.split("::")[-1]
        cls = sh.split("::")[-2] if "::" in sh else ""
        if cls == "octave_value_list":
            if last == "octave_value_list":
                if len(args) == 2 and self.is_args(args[1]):
                    self.put(args[0], ("args",))
                    return FALSE
                return None
            if last.startswith("~"):
                return FALSE
            if last == "length" and self.is_args(args[0]):
                return pin("nrhs", dom=(0, None))
            if last.startswith("operator") and self.is_args(args[0]):
                k = args[1].leaf.const() if args[1].q is None else None
                if k is not None:
                    return pin("val", int(k), ptr=True)
            return None
        if cls == "octave_value":
            if last.startswith("~"):
                return FALSE
            for n, a in enumerate(args[:2]):
                k = self.value(a)
                if k is not None:
                    break
            else:
                return None
            if last in ("matrix_value", "float_matrix_value", "array_value"):
                self.put(args[0], (last, k))
                return FALSE
            if last.startswith("string_value"):
                self.put(args[0], ("string", k))
                return FALSE
            if last == "dims":
                self.put(args[0], ("dims", k))
                return FALSE
            if last in ("rows", "columns", "numel", "ndims", "length"):
                return pin({"columns": "cols"}.get(last, last), k, dom=(0, None))
            if last in ("double_value", "scalar_value"):
                return pin("scalar", k, isint=False)
            if last in ("float_value", "float_scalar_value"):
                return pin("fscalar", k, isint=False)
            if last in ("int_value", "int64_value", "long_value", "idx_type_value"):
                return pin("intval", k)
            if last.startswith("is_") or last.startswith("is"):
                return pin(last, k, dom=(0, 1))
            return None
        if cls in ("Array", "Matrix", "FloatMatrix", "NDArray", "MArray", "NDArrayRep"):
            if last.startswith("~"):
                return FALSE
            w = self.get(args[0])
            if last in ("Matrix", "FloatMatrix") and len(args) >= 3:
                self.new.append((last, args[1], args[2], S.ktuple()))
                self.put(args[0], ("new", len(self.new) - 1))
                S.effect("call", i, args=args[1:], name=last, val=FALSE)
                return FALSE
            if last in ("Matrix", "FloatMatrix") and len(args) == 2 and self.get(args[1]):
                self.put(args[0], self.get(args[1]))
                return FALSE
            if last == "operator=" and len(args) == 2 and self.get(args[1]):
                self.put(args[0], self.get(args[1]))
                return args[0]
            if w is None:
                return None
            if last in ("rows", "dim1", "cols", "columns", "dim2", "numel"):
                f = {"dim1": "rows", "dim2": "cols", "columns": "cols"}.get(last, last)
                if w[0] == "new":
                    _, r, c, _ = self.new[w[1]]
                    return r if f == "rows" else c if f == "cols" else X.mul(r, c)
                return pin(f, w[1], dom=(0, None))
            if last in ("data", "fortran_vec"):
                if w[0] == "new":
                    return pin("out", w[1], ptr=True)
                return pin({"float_matrix_value": "fdata"}.get(w[0], "data"), w[1], ptr=True)
            return None
        if cls == "dim_vector":
            w = self.get(args[0])
            if w and w[0] == "dims" and last.startswith("operator") and args[1].q is None:
                k = args[1].leaf.const()
                if k in (0, 1, 2):
                    return pin("dimref", w[1], ("rows", "cols", "pages")[int(k)], ptr=True)
            if last.startswith("~"):
                return FALSE
            return None
        if sh.endswith("std::operator==") or sh == "std::operator==" or last in ("operator==", "operator!=", "compare") or name == "strcmp":
            for a, b in ((0, 1), (1, 0)):
                if len(args) < 2:
                    break
                w = self.get(args[a])
                if w is None:
                    o = self.obj(args[a])
                    w = ("string", o.args[1]) if o is not None and o.kind == "sym" and o.args[0] == "cstr" else None
                if w and w[0] == "string":
                    t = text(self.m, args[b])
                    if t is not None:
                        e = X.cmp("eq", pin("str", w[1], dom=(0, None)), num(word(t)), True)
                        if last in ("operator!=", "compare") or name == "strcmp":
                            return X.sub(TRUE, e)
                        return e
        if cls == "basic_string":
            if last in ("basic_string", "operator=") and len(args) >= 2 and self.get(args[1]):
                self.put(args[0], self.get(args[1]))
                return args[0]
            w = self.get(args[0]) if args else None
            if last in ("c_str", "data") and w and w[0] == "string":
                return pin("cstr", w[1], ptr=True)
        if name == "getenv":
            t = text(self.m, args[0])
            S.effect("call", i, args=args, name=name, val=FALSE)
            return pin("getenv", t, ptr=True, dom=(0, None))
        if sh == "std::thread::hardware_concurrency":
            return pin("cores", dom=(0, None))
        if last in ("stoul", "stol", "stoi", "stoull", "atoi", "strtol", "atol"):
            return pin("threads_env", dom=(0, None))
        return self.base(S, i, name, args)


def counts(n, keep=()):
    """replacements for loads of the elements of a dim_vector"""
    m = {}
    for a in X.atomset(n):
        if a.kind == "ld":
            b, off = gsa.base_of(a.args[0])
            if b is not None and b.kind == "sym" and b.args[0] == "dimref" and off is X.ZERO:
                m[a] = pin(b.args[2], b.args[1], dom=(0, None))
    return m


def params(F):
    """parameters of an oct-function"""
    ps = [at(gsa.mark_ptr(atom("sym", "retval", isint=True))), at(gsa.mark_ptr(atom("arg", 0, isint=True))), pin("nlhs", dom=(0, None))]
    return ps[-len(F.params):] if len(F.params) < 3 else ps


def binding(u, fn, base=compose.numeric_call, arrays=False):
    """(summary, hook) of the oct-function fn"""
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    h = Calls(u.m, base)
    F.mod.body(F)
    return gsa.Summary(F, params=params(F), on_call=h, tag="E", arrays=arrays), h
