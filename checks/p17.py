"""The delay-and-sum interface in Octave and Python."""
import re
from sa import compose, gsa, kernels as K, octave, octflow, pyflow, expr as X
from sa.octave import pin
from . import interface as I_, p14
from .interface import all_, any_, choice, cols, enum, eq, ge, is_word, numel, rows, text
from .common import parallel

LEVEL = "proof"
MIN_OBLIGATIONS = 160
TECHNIQUE = "value numbering of the compiled das bindings against the documented interface, with the kept object's memory (static)"
NOTE = ("Every path of the bindings, in both precisions, is folded into one decision diagram and compared with the documented interface; the "
        "object kept between calls is read in the memory state of the call, whatever it held before. Trusts clang's front end, sa/, and the models of "
        "the Octave classes and of pybind11. The OpenCL branch is not built and not covered.")
EXPLAIN = ("Per language and precision: the computing method of that precision is reached exactly when the arguments satisfy the documented "
           "requirements; each of its arguments is the documented element, count, enumerator or pointer; the object it is called on exists and holds the "
           "method, lengths and counts of this call, for every earlier state of the kept objects; the image is the array made with a row per point, returned "
           "unchanged, with the status second; every use of argument data happens while a matrix holds it.")
ASSUME = ["octave_value's conversions, the Matrix class and pybind11 behave as documented", "the kept objects are only reached through the bindings",
          "no 64-bit index overflows"]
KEEP = (r"DAS<(float|double)>::(das|set_running|is_running)\(", r"std::operator(==|!=|<<)", "^[^(]*basic_string", "^[^(]*basic_o", "^[^(]*basic_ios", "^[^(]*char_traits")
WORDS = {"saft": "saft", "tfm": "tfm", "rca": "rca_coltx", "rca_coltx": "rca_coltx", "rca_rowtx": "rca_rowtx"}
NAMES = ["Y", "Gt", "Gr", "Ro", "dt", "delay", "cp", "method", "err_level", "device", "verbose="]
FIELDS = ("das_type", "a_scan_len", "No", "num_t_elements", "num_r_elements")


class Interface:
    def __init__(self, ty, py=False, flat=()):
        single = ty == "float"
        of = "fdata" if single and not py else "data"
        ptr = lambda k: pin(of, k, ptr=True)
        T = X.TRUE
        nrhs, nlhs = pin("nrhs", dom=(0, None)), pin("nlhs", dom=(0, None))
        txt = (lambda k: T) if py else text
        req = []
        if not py:
            kind = lambda w, k: X.truth(pin(w, k, dom=(0, 1)))
            req += [ge(nrhs, 8), X.NOT(ge(nrhs, 12)), X.NOT(ge(nlhs, 3))]
            req += [kind("is_single_type", k) for k in (0, 1, 2, 3, 5)] if single else \
                   [X.NOT(kind("is_single_type", 0))] + [kind("is_double_type", k) for k in (1, 2, 3, 5)]
        saft = is_word(7, "saft")
        # Python does not look at the receivers for SAFT; Octave takes no receivers as SAFT
        unused = saft if py else eq(rows(2), 0)
        nr = X.ite(unused, X.num(0), rows(2))
        need = X.ite(X.OR(saft, eq(nr, 0)), rows(1), X.mul(rows(1), rows(2)))
        req += [eq(cols(1), 3), X.OR(unused, eq(cols(2), 3)), eq(cols(3), 3), X.OR(eq(numel(5), 1), eq(numel(5), rows(3))),
                txt(7), any_(*[is_word(7, w) for w in WORDS]), ge(rows(1), 1), X.cmp("ge", cols(0), need, True)]
        if not py:
            req += [eq(rows(k), 1) for k in (4, 6)] + [eq(cols(k), 1) for k in (4, 6)]
        given = T if py else ge(nrhs, 9)
        req.append(X.ite(given, X.AND(txt(8), any_(*[is_word(8, w) for w in I_.LEVELS])), T))
        if py:
            req.append(X.OR(is_word(9, "cpu"), is_word(9, "gpu")))
        else:
            req += [X.ite(ge(nrhs, 10 + j), text(9 + j), T) for j in (0, 1)]
        self.fixed, self.cases = (lambda n: n), [lambda n: n]
        if single and not py:
            is_ = lambda ks, v: {pin("is_single_type", k, dom=(0, 1)).leaf.t[0][0][0][0]: X.num(v) for k in ks}
            self.fixed = X.Subst(is_((0, 1, 2, 3, 5), 1)).node
            self.cases = [self.fixed, X.Subst(is_((0,), 0)).node] + [X.Subst({**is_((0,), 1), **is_((k,), 0)}).node for k in (1, 2, 3, 5)]
        self.valid = all_(*req)
        self.nreq = len(req)
        self.bufs = []
        num = (lambda k: octflow.elem(k, 0)) if py else (lambda k: octflow.elem(k, 0, ty, of))
        self.args = [("Y", ptr(0), T), ("Ro", ptr(3), T), ("Gt", ptr(1), T), ("Gr", ptr(2), X.NOT(unused)), ("dt", num(4), T),
                     ("delay_type", X.ite(eq(numel(5), 1), X.num(0), X.num(1)), ge(rows(3), 2)), ("delay", ptr(5), T), ("cp", num(6), T),
                     ("Im", "h", T), ("err_level", X.ite(given, choice(8, I_.LEVELS, enum("ErrorLevel")),
                                                         X.num(compose.enums()["ErrorLevel"].index("stop"))), T)]
        self.fields = dict(zip(FIELDS, (choice(7, WORDS, enum("DASType")), rows(0), rows(3), rows(1), nr)))
        if flat:
            f = X.Subst({cols(k).leaf.t[0][0][0][0]: X.num(1) for k in flat}).node
            self.valid = f(self.valid)
            self.args = [(x, f(n) if isinstance(n, X.Node) else n, f(c)) for x, n, c in self.args]
            self.fields = {x: f(n) for x, n in self.fields.items()}


def layout(u, ty):
    """field -> (offset, type) of the set-up object, from its constructor"""
    off = {}
    for C in u.m.fns.values():
        if not C.decl and f"DAS<{ty}>::DAS(DASType" in C.dem:
            S = gsa.Summary(C, params=compose.entry_params(C, True), on_call=compose.numeric_call, tag="C")
            for e in S.effects:
                if e.kind == "store" and e.val.q is None and e.addr.q is None:
                    b, o = gsa.base_of(e.addr.leaf)
                    x = e.val.leaf.t[0][0][0][0] if e.val.leaf.t and e.val.leaf.t[0][0] else None
                    if x is not None and x.kind == "arg" and X.patom(x) is e.val.leaf and x.args[0] < 5:
                        off[FIELDS[x.args[0]]] = int(o.const()), str(e.size)
    if set(off) != set(FIELDS):
        raise compose.AnalysisError(f"DAS<{ty}>: the constructor does not keep {sorted(set(FIELDS) - set(off))}")
    return off


class Kept:
    """the memory of the object kept between calls is that of the library"""

    def __call__(self, S, i, name, args):
        d = compose.dname(name)
        if "DAS<" in d and ("unique_ptr" in d or "::DAS(" in d):
            return self.base(S, i, name, args)
        return super().__call__(S, i, name, args)


class OctFlow(Kept, octflow.Flow):
    pass


class PyFlow(Kept, pyflow.Flow):
    pass


def oct_binding(u, fn, base):
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    h = OctFlow(u.m, base)
    F.mod.body(F)
    return gsa.Summary(F, params=octave.params(F), on_call=h, on_read=h.read, tag="E", arrays=True, exits=True), h


def one(case):
    lang, ty, flat = case
    r = K.Result("P17")
    name = f"das ({lang}, {ty}{', 1-D' if flat else ''})"
    py = lang == "Python"
    main = "python/src/py_das.cc" if py else "extra_src/oct_das.cc"
    fl = ("pyf" if ty == "float" else "py") if py else "oct"
    keep = KEEP + ((r"^[^(]*\bpybind11::", "^[^(]*std::vector") if py else ())
    u = compose.Unit([(main, fl), ("extra_src/das.cc", "py" if py else "oct")], keep=keep, allstd=True)
    I = Interface(ty, py, flat)
    make = (lambda u, fn, base: pyflow.binding(u, fn, base, {k: 1 for k in flat}, PyFlow)) if py else oct_binding
    O = octflow.Outcome(u, "das", "das", given=I.valid, base=compose.array_call, make=make, ty=ty,
                        pick=lambda d: re.search(rf"\bDAS<{ty}>::das\(", d) is not None)
    where = K.floc(u.one(rf"\bpy_das<{ty}>\(pybind11" if py else r"^Fdas\(octave_value_list const&"))
    L = layout(u, ty)

    def results(O, I, V, call, h, i, fn, ob, same):
        kept(O, I, V, call, L, ty, ob, same)
        (py_results if py else oct_results)(O, I, V, call, h, i, fn, ob, same, ty)
        if not py:
            I_.lifetimes(r, fn, O, where)
    I_.judge(r, name, I, O, where, results)
    if py:
        p14.extents(r, name, O)
        if not flat:
            p14.names(r, u, "das", u.one(rf"\bpy_das<{ty}>\(pybind11"), NAMES, "das_f" if ty == "float" else "das")
    r.note("bindings and precisions", 1)
    return r


def kept(O, I, V, call, L, ty, ob, same):
    """the object of the call exists and was made for the parameters of this call"""
    this = X.strip_bot(I.fixed(X.ite(V, at(O, call, call.args[0]), X.UNDEF)))
    null = X.apply(lambda p: X.UNDEF if p is X.BOT else X.TRUE if p is X.ZERO else X.cmp("eq", X.L(p), X.FALSE, True), this)
    ob(X.strip_bot(null) is X.FALSE, "object", "the computation is started on an object that may not exist", X.show(null)[:300])
    for f, want in I.fields.items():
        off, w = L[f]

        def held(p):
            return X.UNDEF if p is X.BOT or gsa.base_of(p)[0] is None else O.node(O.fix(O.at_call(call, p, X.pconst(off), w)))
        got = X.ite(V, X.apply(held, this), X.UNDEF)
        agree = X.strip_bot(X.ite(V, X.cmp("eq", got, want, True), X.UNDEF))
        same(agree, X.TRUE, f"object's {f}", f"the object used for the computation may have been made for another {f}")
    for e in O.eff:
        d = compose.dname(e.name) if e.kind == "call" else ""
        if re.search(r"\bDAS<\w+>::(set_running|is_running)\(", d) and e.cond is not X.FALSE:
            c = X.AND(V, O.node(e.cond))
            if c is X.FALSE:
                continue
            a, b = (X.strip_bot(X.ite(c, at(O, x, x.args[0]), X.UNDEF)) for x in (e, call))
            ob(a is b, "object of " + compose.short(d).split("::")[-1], "a method is called on another object than the computation's", X.show(a)[:200])


def at(O, e, n):
    """a value at an effect"""
    return O.under(O.E.addr.node(n))


def oct_results(O, I, V, call, h, i, fn, ob, same, ty):
    nlhs = pin("nlhs", dom=(0, None))
    made = image(O, I, V, call, h, i, ob, same, ty)
    if made is None:
        return
    outs = []
    for e, g in zip(O.S.effects, O.eff_all):
        if e.kind not in ("append", "outset"):
            continue
        c = X.AND(V, O.node(O.whole[g]))
        if c is not X.FALSE:
            outs.append((int(e.args[0].leaf.const()) if e.kind == "outset" else len(outs), c, O.shown(e.args[-1], e)))
    ob([k for k, _, _ in outs] == list(range(len(outs))) and len(outs) == 2, "outputs", f"{len(outs)} values are returned")
    for k, c, what in outs[:2]:
        same(c, V if k == 0 else X.AND(V, eq(nlhs, 2)), f"output {k + 1} given", f"output {k + 1} is not given for exactly the documented calls")
        if k == 0:
            hs = [w for c2, w in (what[1] if what and what[0] == "held" else ()) if X.AND(V, O.node(O.fix(c2))) is not X.FALSE]
            ob(bool(hs) and all(w == ("new", made) for w in hs), "image", "the first value returned is not the computed image", str(what)[:200])
        elif what and what[0] == "value":
            status(O, V, call, c, O.node(what[1]), same)
        elif what and what[0] == "held" and len(what[1]) == 1 and what[1][0][1][0] == "new":
            n = what[1][0][1][1]
            status(O, V, call, c, O.at_end(pin("out", n, ptr=True).leaf, X.ZERO, "double"), same)
        else:
            ob(False, "status", "the second value returned is not the status", str(what)[:200])


def status(O, V, call, c, v, same):
    same(X.ite(c, v, X.UNDEF), X.ite(c, O.node(call.val), X.UNDEF), "status", "the second value returned is not the status of the computation")


def image(O, I, V, call, h, i, ob, same, ty):
    b = gsa.base_of(h)[0] if h is not None else None
    if b is None or b.kind != "sym" or b.args[0] != "out":
        ob(False, "image buffer", "the computation does not write into an array made by the binding")
        return None
    cls, r, c, _ = O.h.new[b.args[1]]
    ob(cls == "array" or cls.startswith("Float") == (ty == "float"), "image precision", "the image is not an array of the precision of the computation", cls)
    n = rows(3)
    same(X.ite(V, O.node(O.fix(r)), X.UNDEF), X.ite(V, n, X.UNDEF), "image rows", "the image does not have an element per observation point")
    same(X.ite(V, O.node(O.fix(c)), X.UNDEF), X.ite(V, X.num(1), X.UNDEF), "image columns", "the image is not a column")
    k = all_(V, X.cmp("lt", X.at(i), n, True))
    end = X.ite(k, O.at_end(h, X.pscale(X.patom(i), 4 if ty == "float" else 8)), X.UNDEF)
    same(end, X.ite(k, X.at(X.atom("sym", "response", X.patom(i))), X.UNDEF), "image kept", "the image is changed after the computation")
    return b.args[1]


def py_results(O, I, V, call, h, i, fn, ob, same, ty):
    made = image(O, I, V, call, h, i, ob, same, ty)
    if made is not None:
        p14.returned(O, made, fn, ob)


CASES = [("Octave", t, ()) for t in ("double", "float")] + \
    [("Python", t, f) for t in ("double", "float") for f in ((), (5,))]


def check(tier):
    return parallel("P17", one, CASES)
