"""The interface of the convolution functions and of the impulse response tools: what reaches their threads."""
import re
from sa import arrays, build, compose, gsa, kernels as K, octave, octflow, pyflow, expr as X
from sa.expr import atom
from sa.octave import pin
from . import interface as I_, p14
from .interface import all_, any_, choice, cols, enum, eq, f2i, ge, is_word, numel, rows, text, vec
from .common import parallel

LEVEL = "proof"
MIN_OBLIGATIONS = 170
TECHNIQUE = "value numbering of the compiled bindings up to the start of their threads against the documented interface (static)"
NOTE = ("Every path of the bindings to the start of their threads is folded into one decision diagram and compared with the documented interface, at the "
        "moment the threads start, so nothing after it can matter. What the FFTW library says about a text (wisdom, planning mode) is free. Trusts "
        "clang's front end, sa/, and the models of the Octave classes, pybind11 and std::thread.")
EXPLAIN = ("conv_p, fftconv_p, fftconv_ola, sum_fftconv, circ_sir, scirc_sir, copy_p, add_p, rect_sir, dream_att, dream_apodwin, py fftconv_p: the "
           "work is reached exactly when the arguments satisfy the documented requirements; every field of the threads' record (or argument of the "
           "kernel) is the documented element, count, word or pointer; every column is given to one thread; the matrix returned is the one worked on, of "
           "the documented size, or the caller's own in the in-place forms; every matrix is alive as long as it is used.")
ASSUME = ["octave_value's conversions, the Matrix class, pybind11 and FFTW's wisdom functions behave as documented",
          "the partition of columns over threads is P10's and the work of a thread P02's, P03's and P11's", "no 64-bit index overflows"]
KEEP = (r"\bFFT::", r"std::operator(==|!=|<<)", "^[^(]*basic_string", "^[^(]*basic_o", "^[^(]*basic_ios", "^[^(]*char_traits", "std::unique_ptr", "std::vector")
MODES = {"=": "equ", "+=": "sum", "-=": "neg"}
CONV = ("start", "stop", "Y", "A", "A_M", "B", "B_M", "B_N", "conv_mode", "block_len", "H", "L")
SIR = ("start", "stop", "Ro", "No", "r", "dt", "nt", "delay_type", "delay", "v", "cp", "int_len", "h")


class Strings:
    """text objects tracked like matrix objects; what the FFT library says about a text is free"""

    def __call__(self, S, i, name, args):
        d = compose.dname(name)
        sh = compose.short(d)
        last = sh.split("::")[-1]
        cls = (sh.split("::")[-2] if "::" in sh else "").split("<")[0]
        if cls == "octave_value" and last.startswith("string_value") and len(args) >= 2:
            k = self.value(args[1])
            if k is not None:
                self.mput(S, i, args[0], ("string", k))
                return X.FALSE
        if cls == "octave_value" and last == "octave_value" and len(args) >= 2 and self.value(args[1]) is None:
            t = compose.split_args(d)[0]
            if "basic_string" in t:
                S.effect("vput", i, addr=args[0], name="text", args=args[1:])
                return X.FALSE
        if cls == "basic_string":
            if last.startswith("~"):
                return X.FALSE
            if last in ("basic_string", "operator=", "assign") and len(args) >= 2:
                t = compose.split_args(d)[0]
                if "basic_string" in t:
                    self.mput(S, i, args[0], ("copy",), args[1:2])
                else:
                    w = octave.text(self.m, args[1])
                    self.mput(S, i, args[0], ("lit", None if w is None else octave.word(w)))
                return args[0]
            if last == "basic_string":
                self.mput(S, i, args[0], ("lit", octave.word("")))
                return args[0]
        if last in ("operator==", "operator!=", "compare") and len(args) >= 2:
            for a, b in ((0, 1), (1, 0)):
                w = octave.text(self.m, args[b])
                if w is not None and self.place(args[a]) is not None:
                    q = self.ask(S, i, args[a], "str")
                    e = X.cmp("eq", q, X.num(octave.word(w)), True)
                    return X.sub(X.TRUE, e) if last != "operator==" else e
        if cls == "FFT":
            if last in ("is_wisdom", "import_wisdom") and len(args) == 2:
                S.effect("call", i, args=args, name=name, val=X.FALSE)
                return self.ask(S, i, args[1], last)
            if last == "get_wisdom" and len(args) == 2:
                self.mput(S, i, args[0], ("wisdom",))
            if last != "FFT":
                return X.FALSE
        return super().__call__(S, i, name, args)


class Flow(Strings, octflow.Flow):
    pass


class State(octflow.State):
    def field(self, w, f):
        if w[0] in ("string", "lit"):
            k = w[1]
            if w[0] == "lit" and f == "str":
                return X.num(k) if k is not None else X.UNDEF
            return pin(f, k if w[0] == "string" else "literal", dom=(0, None) if f == "str" else (0, 1))
        return super().field(w, f)


def flow(u, fn, base):
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    h = Flow(u.m, base)
    F.mod.body(F)
    return gsa.Summary(F, params=octave.params(F), on_call=h, on_read=h.read, tag="E", arrays=True, exits=True), h


class Started(compose.Threaded):
    """the threads a binding starts, from its resolved effects"""

    def __init__(self, u, O, entry):
        self.arrays, self.resolve, self.method, self.hook = False, False, False, None
        self.on_call = compose.numeric_call
        self.u, self.entry = u, entry
        self.E = type("E", (), {"effects": O.eff})()
        self.local, self.objects = {}, {}
        for e in O.eff:
            if e.kind == "store" and e.addr.q is None:
                b, off = gsa.base_of(e.addr.leaf)
                if b is not None and b.kind == "alloca":
                    self.local.setdefault(b.key, []).append((off, e))
        self.launches()
        self.compose()


class Interface:
    """valid: the documented calls; fields: role -> (value, when it matters)"""

    def __init__(self, req, fields, out, fft=None, inplace=X.FALSE, nlhs2=False):
        self.valid = all_(*req)
        self.nreq = len(req)
        self.fields = fields
        self.out, self.fft, self.inplace, self.wisdom = out, fft, inplace, nlhs2


def nargs():
    return pin("nrhs", dom=(0, None)), pin("nlhs", dom=(0, None))


def data(k):
    return pin("data", k, ptr=True)


def flag(f, k):
    return X.truth(pin(f, k, dom=(0, 1)))


def second(a, b):
    """the second operand: (requirement, its length, the number of its columns)"""
    one = X.OR(eq(rows(b), 1), eq(cols(b), 1))
    return X.OR(one, eq(cols(b), cols(a))), X.ite(one, numel(b), rows(b)), X.ite(one, X.num(1), cols(b))


def length(a, b):
    return X.sub(X.add(a, b), X.num(1))


def target(k, n, c):
    return [eq(rows(k), n), eq(cols(k), c)]


def conv_p():
    nrhs, nlhs = nargs()
    req, bm, bn = second(0, 1)
    n = length(rows(0), bm)
    place = ge(nrhs, 3)
    mode = ge(nrhs, 4)
    req = [ge(nrhs, 2), X.NOT(ge(nrhs, 5)), req, X.ite(eq(nrhs, 2), X.NOT(ge(nlhs, 2)), X.TRUE), X.ite(eq(nrhs, 3), X.NOT(ge(nlhs, 1)), X.TRUE),
           X.ite(place, all_(*target(2, n, cols(0))), X.TRUE), X.ite(mode, X.AND(text(3), any_(*[is_word(3, w) for w in MODES])), X.TRUE)]
    fields = {"A": (data(0), X.TRUE), "A_M": (rows(0), X.TRUE), "B": (data(1), X.TRUE), "B_M": (bm, X.TRUE), "B_N": (bn, X.TRUE),
              "conv_mode": (X.ite(mode, choice(3, MODES, enum("ConvMode")), X.num(0)), X.TRUE)}
    return Interface(req, fields, ("Y", n, cols(0), data(2)), inplace=place)


def wisdom(k):
    return X.AND(flag("is_wisdom", k), flag("import_wisdom", k))


def modal(k, w):
    """mode word in argument k, and the call's convolution mode"""
    return any_(*[is_word(k, x) for x in MODES])


def fft_conv(first):
    """fftconv_p (first=2) and fftconv_ola (first=3): the arguments from number `first` on are optional"""
    nrhs, nlhs = nargs()
    req, bm, bn = second(0, 1)
    n = length(rows(0), bm)
    y, m, w = first, first + 1, first + 2
    given = lambda k: ge(nrhs, k + 1)
    word = text(y)
    place = X.OR(given(m), X.AND(given(y), X.NOT(word)))
    ismode = modal(m, MODES)
    req = [ge(nrhs, first), X.NOT(ge(nrhs, first + 4)), X.NOT(ge(nlhs, 3)), req, ge(rows(0), 1), ge(bm, 1),
           X.ite(place, all_(*target(y, n, cols(0))), X.TRUE),
           # one optional argument: a wisdom, or the matrix to work in
           X.ite(eq(nrhs, first + 1), X.ite(word, wisdom(y), X.NOT(ge(nlhs, 1))), X.TRUE),
           # two: the matrix, and a mode or a wisdom
           X.ite(eq(nrhs, first + 2), X.AND(text(m), X.OR(ismode, wisdom(m))), X.TRUE),
           # three: the matrix, a mode and a wisdom
           X.ite(eq(nrhs, first + 3), all_(text(m), ismode, text(w), wisdom(w)), X.TRUE)]
    mode = X.ite(X.AND(given(m), ismode), choice(m, MODES, enum("ConvMode")), X.num(0))
    fields = {"A": (data(0), X.TRUE), "A_M": (rows(0), X.TRUE), "B": (data(1), X.TRUE), "B_M": (bm, X.TRUE), "B_N": (bn, X.TRUE),
              "conv_mode": (mode, X.TRUE)}
    fft = n
    if first == 3:
        bl = f2i(octflow.elem(2, 0))
        req += [eq(numel(2), 1), ge(bl, 1), X.cmp("le", bl, rows(0), True)]
        fields["block_len"] = (bl, X.TRUE)
        fft = length(bl, bm)
    return Interface(req, fields, ("Y", n, cols(0), data(y)), fft=fft, inplace=place, nlhs2=True)


def sum_fftconv():
    nrhs, nlhs = nargs()
    n = length(rows(0), rows(1))
    pages = pin("pages", 0, dom=(0, None))
    word = text(2)
    place = X.OR(ge(nrhs, 4), X.AND(eq(nrhs, 3), X.NOT(word)))
    req = [ge(nrhs, 2), X.NOT(ge(nrhs, 5)), X.NOT(ge(nlhs, 3)), eq(pin("ndims", 0, dom=(0, None)), 3), eq(pages, cols(1)), ge(rows(0), 1), ge(rows(1), 1),
           X.ite(place, all_(*target(2, n, cols(0))), X.TRUE),
           X.ite(eq(nrhs, 3), X.ite(word, wisdom(2), X.NOT(ge(nlhs, 1))), X.TRUE), X.ite(ge(nrhs, 4), X.AND(text(3), wisdom(3)), X.TRUE)]
    k = atom("tmp", 77, isint=True, dom=(0, None))
    fields = {"A_M": (rows(0), X.TRUE), "B": (data(1), X.TRUE), "B_M": (rows(1), X.TRUE), "L": (cols(1), X.TRUE),
              "conv_mode": (X.ite(place, X.num(compose.enums()["ConvMode"].index("sum")), X.num(0)), X.TRUE),
              "H": (X.add(data(0), X.mul(X.num(8), X.mul(X.at(k), X.mul(rows(0), cols(0))))), X.cmp("lt", X.at(k), cols(1), True))}
    return Interface(req, fields, ("Y", n, cols(0), data(2)), fft=n, inplace=place, nlhs2=True)


def sir(geo, sampled):
    nrhs, nlhs = nargs()
    nt = f2i(octflow.elem(2, 1))
    req = [eq(nrhs, 6 if sampled else 5), X.NOT(ge(nlhs, 2)), eq(cols(0), 3), vec(1, geo), vec(2, 2),
           X.OR(eq(numel(3), 1), eq(numel(3), rows(0))), vec(4, 2)]
    T = X.TRUE
    fields = {"Ro": (data(0), T), "No": (rows(0), T), "r": (octflow.elem(1, 0), T), "dt": (octflow.elem(2, 0), T), "nt": (nt, T),
              "delay_type": (X.ite(eq(numel(3), 1), X.num(0), X.num(1)), ge(rows(0), 2)), "delay": (data(3), T),
              "v": (octflow.elem(4, 0), T), "cp": (octflow.elem(4, 1), T)}
    if sampled:
        n = f2i(octflow.elem(5, 0))
        req += [eq(numel(5), 1), ge(n, 1)]
        fields["int_len"] = (n, T)
    return Interface(req, fields, ("h", nt, rows(0), None))


def block():
    nrhs, nlhs = nargs()
    req = [eq(nrhs, 4), X.NOT(ge(nlhs, 1))]
    for k, n in ((1, rows(0)), (2, cols(0))):
        a, b = octflow.elem(k, 0), octflow.elem(k, 1)
        req += [eq(numel(k), 2), ge(f2i(a), 1), X.NOT(X.cmp("lt", b, a, False)), *(X.cmp("le", f2i(x), n, True) for x in (a, b))]
    span = lambda k: X.add(f2i(X.sub(octflow.elem(k, 1), octflow.elem(k, 0))), X.num(1))
    req += [ge(rows(3), span(1)), eq(cols(3), span(2))]
    return Interface(req, {}, (None, None, None, None))


# file: (interface, driver, its function, roles, the sources it calls, macros)
FUNCS = {"conv_p": (conv_p, "drive_oct_conv", CONV, "extra_src/conv.cc", ("-DKIND=0",)),
         "fftconv_p": (lambda: fft_conv(2), "drive_oct_conv", CONV, "extra_src/fftconv.cc", ("-DKIND=1",)),
         "fftconv_ola": (lambda: fft_conv(3), "drive_oct_conv", CONV, "extra_src/fftconv.cc", ("-DKIND=2",)),
         "sum_fftconv": (sum_fftconv, "drive_oct_conv", CONV, "extra_src/fftconv.cc", ("-DKIND=3",)),
         "circ_sir": (lambda: sir(1, False), "drive_oct_sir", SIR, "extra_src/circ_sir.cc", ()),
         "copy_p": (block, None, (), None, ()), "add_p": (block, None, (), None, ()),
         "scirc_sir": (lambda: sir(1, True), "drive_oct_sir", SIR, "extra_src/scirc_sir.cc", ("-DSAMPLED",))}


def roles(worker, fn, driver, names, defs):
    """offset in the worker's record -> the role of what is there, from the driver the worker is verified with"""
    d = f"{build.VERIF}/spec/{driver}.cc"
    w = compose.dname(worker).split("(")[0]
    u = compose.Unit([(d, "oct", (f'-DSOURCE="{build.REPO}/extra_src/oct_{fn}.cc"', f"-DWORKER={w}") + defs)], keep=KEEP + ("^" + re.escape(w) + r"\b",), allstd=True)
    F = u.one(r"^drive_\w+\b")
    F.mod.body(F)
    S = gsa.Summary(F, params=compose.entry_params(F, False), on_call=compose.array_call, tag="R", arrays=True)
    call = [e for e in S.effects if e.kind == "call" and e.name == worker]
    if len(call) != 1:
        raise compose.AnalysisError(f"{fn}: the driver does not call {w}")
    rec = gsa.base_of(call[0].args[-1].leaf)[0]
    out = {}
    for e in S.effects:
        if e.kind == "store" and e.addr.q is None and gsa.base_of(e.addr.leaf)[0] is rec:
            off = int(gsa.base_of(e.addr.leaf)[1].const())
            v = e.val.leaf if e.val.q is None else None
            x = v.t[0][0][0][0] if v is not None and len(v.t) == 1 and v.t[0][0] else None
            while x is not None and x.kind == "fn" and x.args[0] in ("trunc32", "zext32", "sext32"):
                x = x.args[1].t[0][0][0][0]
            if x is not None and x.kind == "arg":
                out.setdefault(off, names[x.args[0]])
            elif x is not None and x.kind in ("alloca", "heap"):
                out[off] = "fft"
            else:
                raise compose.AnalysisError(f"{fn}: record field {off} of the driver not understood")
    return out


def one(fn):
    make, driver, names, src, defs = FUNCS[fn]
    r = K.Result("P18")
    I = make()
    u = compose.Unit([(f"extra_src/oct_{fn}.cc", "oct")] + ([(src, "oct")] if src else []), keep=KEEP + (rf"^{fn.replace('_p', '')}\(",), allstd=True)
    O = octflow.Outcome(u, fn, fn, given=I.valid, base=compose.array_call, make=flow, out=None, state=State,
                        pick=lambda d: d.startswith("std::thread::thread<"))
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    where = K.floc(F)
    T = Started(u, O, F)
    R = roles(T.worker.name, fn, driver, names, defs) if driver else {}      # copy_p, add_p: what the worker is given is the subject of P11
    launches(r, fn, I, O, T, R, where)
    return r


def launches(r, fn, I, O, T, R, where):
    ob, same = I_.reporter(r, fn, I, where)
    V = I.valid
    node = lambda n: O.node(n)
    cond = X.FALSE
    for l in T.L:
        cond = X.OR(cond, node(O.whole[l.effect]))
    same(cond, V, "accepted arguments", "the threads are not started for exactly the documented arguments")
    r.note("requirements", I.nreq)
    r.note("launches", len(T.L))
    call = T.L[0].effect
    i = atom("tmp", 77, isint=True, dom=(0, None))
    made = None
    for off, role in sorted(R.items()):
        if role in ("start", "stop"):
            continue
        v = T.fields.get(off)
        if v is None:
            ob(False, role, f"the threads are not given the {role}")
            continue
        v = O.under(node(v))
        if role == "fft":
            fft(O, I, V, v, ob, same)
            continue
        if role == I.out[0]:
            made = result(O, I, V, v, ob, same)
            continue
        if role not in I.fields:
            continue
        want, c = I.fields[role]
        c = X.AND(V, c)
        if role == "H":
            v = X.apply(lambda p: X.UNDEF if p is X.BOT or gsa.base_of(p)[0] is None else O.node(O.at_call(O.calls[0], p, X.pscale(X.patom(i), 8), "ptr")),
                        X.strip_bot(X.ite(c, v, X.UNDEF)))
        same(X.ite(c, v, X.UNDEF), X.ite(c, want, X.UNDEF), f"field {role}", f"the threads are given a wrong {role}")
    missing = (set(I.fields) | {I.out[0]} - {None}) - set(R.values())
    if missing:
        raise compose.AnalysisError(f"{fn}: no field for {sorted(missing)}")
    touched(r, O, I, V, ob)
    outputs(O, I, V, made, ob, same)
    I_.lifetimes(r, fn, O, where, kept(T, O))


def kept(T, O):
    """what the threads' records hold is used until the last of them has ended"""
    last = max([e.seq for e in O.S.effects if e.kind == "call" and ends(e)] + [l.effect.seq for l in T.L])
    rec = {gsa.base_of(l.daddr.leaf)[0] for l in T.L}
    return [(e, [e.val], last) for e in O.S.effects if e.kind == "store" and e.addr.q is None and gsa.base_of(e.addr.leaf)[0] in rec]


def ends(e):
    return compose.short(compose.dname(e.name)).endswith("thread::join")


def fft(O, I, V, v, ob, same):
    """the transform object of the threads was made for the documented length"""
    got = X.UNDEF
    ok = False
    for e in O.eff:
        if e.kind == "call" and re.search(r"\bFFT::FFT\(", compose.dname(e.name)) and e.args[0] is X.strip_bot(X.ite(V, v, X.UNDEF)):
            ok = True
            got = X.ite(O.node(e.cond), O.node(e.args[1]), got)
    ob(ok, "fft", "the threads are not given a transform made for this call", X.show(v)[:200])
    if ok:
        same(X.ite(V, got, X.UNDEF), X.ite(V, I.fft, X.UNDEF), "fft length", "the transforms have a wrong length")


def result(O, I, V, v, ob, same):
    """a new matrix of the documented size, or the one given for in-place operation; returns its number"""
    role, n, c, place = I.out
    new, old = X.AND(V, X.NOT(I.inplace)), X.AND(V, I.inplace)
    if place is not None:
        same(X.ite(old, v, X.UNDEF), X.ite(old, place, X.UNDEF), "in-place matrix", "in-place operation does not work on the elements of the matrix given for it")
    p = X.strip_bot(X.ite(new, v, X.UNDEF))
    b, off = gsa.base_of(p.leaf) if p.q is None else (None, None)
    ok = b is not None and b.kind == "sym" and b.args[0] == "out" and off is X.ZERO
    ob(ok, "new matrix", "the threads do not write into one matrix made for the result", X.show(p)[:200])
    if not ok:
        return None
    _, rr, cc, _ = O.h.new[b.args[1]]
    for got, want, what in ((rr, n, "rows"), (cc, c, "columns")):
        same(X.ite(new, O.node(O.fix(got)), X.UNDEF), X.ite(new, want, X.UNDEF), what, f"the result has a wrong number of {what}")
    return b.args[1]


def touched(r, O, I, V, ob):
    """the binding itself leaves the arguments alone, and the result once the threads have started"""
    first = min(e.seq for e in O.calls)
    n = 0
    for e in O.eff:
        if e.kind not in ("store", "acc", "memset", "memcpy", "fill") or e.cond is X.FALSE:
            continue
        a = O.under(O.E.addr.node(e.addr))
        for p in set(octflow.leaves(a)):
            b, _ = gsa.base_of(p)
            if b is None or b.kind != "sym":
                continue
            n += 1
            if b.args[0] in ("data", "fdata"):
                ob(False, "arguments kept", f"the binding changes argument {b.args[1] + 1} itself", str(e.ins)[:200])
            elif b.args[0] == "out" and e.seq > first:
                ob(False, "result kept", "the binding changes the result after the threads have started", str(e.ins)[:200])
    r.note("stores to matrices", n)
    ob(True, "matrices", "")


def outputs(O, I, V, made, ob, same):
    nlhs = pin("nlhs", dom=(0, None))
    outs = O.outputs()
    new = X.AND(V, X.NOT(I.inplace))
    k = 0
    for cond, what, e in outs:
        c = X.AND(V, O.node(cond))
        if c is X.FALSE:
            continue
        k += 1
        if what and what[0] == "held":
            hs = [w for c2, w in what[1] if X.AND(c, O.node(O.fix(c2))) is not X.FALSE]
            ob(bool(hs) and all(w == ("new", made) for w in hs), "result", "the first value returned is not the computed matrix", str(what)[:200])
            same(c, new, "returned", "the result is not returned for exactly the documented calls")
        elif I.wisdom:
            same(c, X.AND(V, eq(nlhs, 2)), "wisdom returned", "the wisdom is not returned for exactly the documented calls")
        else:
            ob(False, "outputs", "an undocumented value is returned", str(what)[:200])
    ob(k == (0 if I.out[0] is None else 2 if I.wisdom else 1), "outputs", f"{k} values are returned")


# -- functions that call the library themselves ------------------------------------------------------------------------
class Direct:
    """valid and the arguments of the one call of the computing method, as interface.judge takes them"""

    def __init__(self, req, args, nt=None):
        self.valid, self.nreq, self.args, self.bufs, self.nt = all_(*req), len(req), args, [], nt


def rect_sir(r):
    nrhs, nlhs = nargs()
    T = X.TRUE
    e = octflow.elem
    nt = f2i(e(2, 1))
    req = [ge(nrhs, 5), X.NOT(ge(nrhs, 7)), X.NOT(ge(nlhs, 2)), eq(cols(0), 3), vec(1, 2), vec(2, 2), X.OR(eq(numel(3), 1), eq(numel(3), rows(0))), vec(4, 2),
           X.ite(eq(nrhs, 6), text(5), T)]
    I = Direct(req, [("Ro", data(0), T), ("No", rows(0), T), ("a", e(1, 0), T), ("b", e(1, 1), T), ("dt", e(2, 0), T), ("nt", nt, T),
                     ("delay_type", X.ite(eq(numel(3), 1), X.num(0), X.num(1)), ge(rows(0), 2)), ("delay", data(3), T), ("v", e(4, 0), T),
                     ("cp", e(4, 1), T), ("h", "h", T)], nt)
    u = compose.Unit([("extra_src/oct_rect_sir.cc", "oct"), ("extra_src/rect_sir.cc", "oct")], keep=KEEP + (r"\bRectSir::(rect_sir|is_running)\(",), allstd=True)
    O = octflow.Outcome(u, "rect_sir", "rect_sir", given=I.valid, base=compose.array_call, make=flow, out=-1, state=State)
    where = K.floc(u.one(r"^Frect_sir\(octave_value_list const&"))

    def results(O, I, V, call, h, i, fn, ob, same):
        made = I_.matrix(O, I, V, call, h, i, fn, ob, same)
        outs = O.outputs()
        ob(len(outs) == 1, "outputs", f"{len(outs)} values are returned")
        stop = X.num(compose.enums()["ErrorLevel"].index("stop"))
        for cond, what, e in outs[:1]:
            good = what and what[0] == "held" and what[1] and all(w == ("new", made) for _, w in what[1])
            ob(bool(good), "result", "the value returned is not the computed matrix", str(what)[:200])
            same(O.node(cond), X.AND(V, X.NOT(X.cmp("eq", O.node(call.val), stop, True))), "returned", "the result is not returned for exactly the documented calls")
        I_.lifetimes(r, fn, O, where)
    I_.judge(r, "rect_sir", I, O, where, results)


def shown(O, V, n, S):
    """a value at an effect, for one iteration; counts are below 2^31"""
    n = S.node(O.under(O.E.addr.node(n)))
    m = {x: X.L(x.args[1]) for x in X.atomset(n) if x.kind == "fn" and x.args[0] in ("trunc32", "zext32", "sext32", "u32")}
    return X.Subst(m).node(n) if m else n


def dream_att(r):
    """one filter made for the call, run once per observation point into its column"""
    nrhs, nlhs = nargs()
    fn, e, T = "dream_att", octflow.elem, X.TRUE
    nt = f2i(e(1, 1))
    req = [eq(nrhs, 4), X.NOT(ge(nlhs, 2)), eq(cols(0), 3), vec(1, 2), X.OR(eq(numel(2), 1), eq(numel(2), rows(0))), vec(3, 2)]
    I = Direct(req, [], nt)
    V = I.valid
    u = compose.Unit([("oct/oct_dream_att.cc", "oct"), ("src/attenuation.cc", "oct")], keep=KEEP + (r"\bAttenuation::", r"\bFFTC?Vec::"), allstd=True)
    O = octflow.Outcome(u, fn, fn, given=V, base=compose.array_call, make=flow, out=None, state=State, pick=lambda d: re.search(r"\bAttenuation::att\(", d) is not None)
    where = K.floc(u.one(r"^Fdream_att\(octave_value_list const&"))
    ob, same = I_.reporter(r, fn, I, where)
    if not O.calls:
        raise compose.AnalysisError(f"{fn}: no use of the filter")
    n = X.at(atom("tmp", 77, isint=True, dom=(0, None)))
    inside = X.cmp("lt", n, rows(0), True)
    cond, got = X.FALSE, [X.UNDEF] * 8
    for c in O.calls:
        if len(c.loops) != 1:
            ob(False, "points", "the filter is not run once per observation point")
            return
        k = atom("k", c.loops[0], isint=True, dom=(0, None))
        S = X.Subst({k: n})
        w = X.AND(S.node(O.node(O.whole[c])), X.cmp("lt", n, shown(O, V, c.tcs[0], S), True))
        cond = X.OR(cond, w)
        for j, a in enumerate(c.args[:8]):
            got[j] = X.ite(w, shown(O, V, a, S), got[j])
    W = X.AND(V, inside)
    same(X.AND(inside, cond), W, "accepted arguments", "the filter is not run for exactly the documented arguments and points")
    same(X.AND(X.NOT(inside), cond), X.FALSE, "points", "the filter is run for points that do not exist")
    xyz = [e(0, X.padd(X.pscale(n.leaf, 8), X.pscale(rows(0).leaf, 8 * j))) for j in range(3)]
    rr = X.fn("sqrt", X.add(X.add(X.mul(xyz[0], xyz[0]), X.mul(xyz[1], xyz[1])), X.mul(xyz[2], xyz[2])))
    delay = X.ite(eq(numel(2), 1), e(2, 0), e(2, X.pscale(n.leaf, 8)))
    it = f2i(X.add(X.div(X.sub(X.div(X.mul(rr, X.num(1000)), e(3, 0)), delay), e(1, 0)), X.num(1)))
    want = {3: (rr, "distance"), 4: (it, "arrival"), 6: (X.num(1), "strength")}
    for j, (v, what) in want.items():
        same(X.ite(W, got[j], X.UNDEF), X.ite(W, v, X.UNDEF), what, f"the filter is run with a wrong {what}")
    p = X.strip_bot(X.ite(W, got[5], X.UNDEF))
    b, off = gsa.base_of(p.leaf) if p.q is None else (None, None)
    ok = b is not None and b.kind == "sym" and b.args[0] == "out"
    ob(ok, "output buffer", "the pulses are not added to one matrix made by the binding", X.show(p)[:200])
    if ok:
        same(X.ite(W, X.L(off), X.UNDEF), X.ite(W, X.mul(X.num(8), X.mul(n, nt)), X.UNDEF), "column", "a pulse is added to another column than its point's")
        _, rr_, cc, _ = O.h.new[b.args[1]]
        for x, y, what in ((rr_, nt, "rows"), (cc, rows(0), "columns")):
            same(X.ite(V, O.node(O.fix(x)), X.UNDEF), X.ite(V, y, X.UNDEF), what, f"the result has a wrong number of {what}")
        i = X.at(atom("tmp", 78, isint=True, dom=(0, None)))
        c = all_(V, X.cmp("lt", i, X.mul(nt, rows(0)), True))
        h = pin("out", b.args[1], ptr=True).leaf
        same(X.ite(c, O.at_call(O.calls[0], h, X.pscale(i.leaf, 8)), X.UNDEF), X.ite(c, X.FALSE, X.UNDEF), "zeroed", "the result is not zero before the pulses are added")
        outs = O.outputs()
        ob(len(outs) == 1, "outputs", f"{len(outs)} values are returned")
        for cond, what, _ in outs[:1]:
            good = what and what[0] == "held" and what[1] and all(w == ("new", b.args[1]) for _, w in what[1])
            ob(bool(good), "result", "the value returned is not the computed matrix", str(what)[:200])
            same(O.node(cond), V, "returned", "the result is not returned for exactly the documented calls")
    # the filter and its work buffers
    for j, rx, args, what in ((0, r"\bAttenuation::Attenuation\(", (nt, e(1, 0), e(3, 1)), "filter"), (1, r"\bFFTCVec::FFTCVec\(", (nt,), "spectrum buffer"),
                              (2, r"\bFFTVec::FFTVec\(", (nt,), "sample buffer")):
        o = X.strip_bot(X.ite(W, got[j], X.UNDEF))
        made = [x for x in O.eff if x.kind == "call" and re.search(rx, compose.dname(x.name)) and x.args[0] is o]
        ob(len(made) == 1 and made[0].seq < O.calls[0].seq, what, f"the {what} is not made once for this call")
        for x in made[:1]:
            for q, (a, y) in enumerate(zip(x.args[1:], args)):
                same(X.ite(V, O.node(a), X.UNDEF), X.ite(V, y, X.UNDEF), f"{what} {q}", f"the {what} is made with a wrong argument {q + 1}")
    I_.lifetimes(r, fn, O, where)


def py_fftconv(r, flat=()):
    T = X.TRUE
    ok, bm, bn = second(0, 1)
    n = length(rows(0), bm)
    I = Direct([ok, ge(rows(0), 1), ge(bm, 1)], [])
    I.args = [("Y", "h", T), ("A", data(0), T), ("A_M", rows(0), T), ("A_N", cols(0), T), ("B", data(1), T), ("B_M", bm, T), ("B_N", bn, T),
              ("mode", X.num(0), T)]
    N = cols(0)
    if flat:
        f = X.Subst({cols(k).leaf.t[0][0][0][0]: X.num(1) for k in flat}).node
        I.valid, n, N = f(I.valid), f(n), f(N)
        I.args = [(x, f(v) if isinstance(v, X.Node) else v, c) for x, v, c in I.args]
    u = compose.Unit([("python/src/py_fftconv_p.cc", "py"), ("extra_src/fftconv_p.cc", "py")],
                     keep=(r"\bFFTConvP::(run|is_running)\(", "std::unique_ptr", "^[^(]*std::vector", r"^[^(]*\bpybind11::"), allstd=True)
    F = u.one(r"\bpy_fftconv_p<double>\(pybind11")
    where = K.floc(F)
    O = octflow.Outcome(u, "fftconv_p", "run", given=I.valid, base=compose.array_call, out=1,
                        make=lambda u, fn, base: pyflow.binding(u, fn, base, {k: 1 for k in flat}))
    name = f"fftconv_p (Python{', 1-D ' + ' and '.join('AB'[k] for k in flat) if flat else ''})"

    def results(O, I, V, call, h, i, fn, ob, same):
        b = gsa.base_of(h)[0] if h is not None else None
        good = b is not None and b.kind == "sym" and b.args[0] == "out"
        ob(good, "output buffer", "the computation does not write into an array made by the binding")
        if good:
            _, rr, cc, _ = O.h.new[b.args[1]]
            for x, y, what in ((rr, n, "rows"), (cc, N, "columns")):
                same(X.ite(V, O.node(O.fix(x)), X.UNDEF), X.ite(V, y, X.UNDEF), what, f"the result has a wrong number of {what}")
            k = all_(V, X.cmp("lt", X.at(i), X.mul(n, N), True))
            end = X.ite(k, O.at_end(h, X.pscale(X.patom(i), 8)), X.UNDEF)
            same(end, X.ite(k, X.at(X.atom("sym", "response", X.patom(i))), X.UNDEF), "kept", "the result is changed after the computation")
            p14.returned(O, b.args[1], fn, ob)
    I_.judge(r, name, I, O, where, results)
    p14.extents(r, name, O)
    if not flat:
        p14.names(r, u, "fftconv_p", F, ["A", "B"])


def dream_apodwin(r):
    """every weight of every method, from the result's contents"""
    nrhs, nlhs = nargs()
    fn, e = "dream_apodwin", octflow.elem
    ud = is_word(0, "ud")
    n = X.ite(ud, numel(1), f2i(e(1, 0)))
    V = all_(eq(nrhs, 3), X.NOT(ge(nlhs, 2)), text(0), any_(*[is_word(0, w) for w in I_.APOD]), X.OR(ud, eq(numel(1), 1)), ge(n, 1),
             eq(rows(2), 1), eq(cols(2), 1))
    I = Direct([V], [])
    I.nreq = 7
    u = compose.Unit([("oct/oct_dream_apodwin.cc", "oct"), ("src/arr_functions.cc", "oct")], keep=KEEP)
    O = octflow.Outcome(u, fn, fn, given=V, base=compose.array_call, make=flow, out=None, state=State)
    where = K.floc(u.one(r"^Fdream_apodwin\(octave_value_list const&"))
    ob, same = I_.reporter(r, fn, I, where)
    outs = O.outputs()
    ob(len(outs) == 1, "outputs", f"{len(outs)} values are returned")
    k = atom("tmp", 77, isint=True, dom=(0, None))
    S = K.spec_unit("apodwin").one(r"^spec_apodwin\b")
    S.mod.body(S)
    w = gsa.mark_ptr(atom("sym", "w", isint=True))
    names = compose.enums()["ApodMet"]
    for cond, what, _ in outs[:1]:
        same(O.node(cond), V, "accepted arguments", "the weights are not returned for exactly the documented arguments")
        hs = what[1] if what and what[0] == "held" else ()
        if not (len(hs) == 1 and hs[0][1][0] == "new"):
            ob(False, "result", "the value returned is not a matrix made here", str(what)[:200])
            return
        made = hs[0][1][1]
        _, rr, cc, _ = O.h.new[made]
        for x, y, t in ((rr, n, "rows"), (cc, X.num(1), "columns")):
            same(X.ite(V, O.node(O.fix(x)), X.UNDEF), X.ite(V, y, X.UNDEF), t, f"the result has a wrong number of {t}")
        end = O.at_end(pin("out", made, ptr=True).leaf, X.pscale(X.patom(k), 8))
        for word, met in I_.APOD.items():
            c = all_(V, is_word(0, word), X.cmp("lt", X.at(k), n, True))
            want = X.num(1)
            if met:
                N = numel(1) if word == "ud" else f2i(e(1, 0))
                R = gsa.Summary(S, params=[X.num(names.index(met)), data(1), X.at(k), N, e(2, 0), X.at(w)], on_call=compose.array_call, tag="S")
                st = [x for x in R.effects if x.kind == "store"]
                if len(st) != 1:
                    raise compose.AnalysisError("reference weight not understood")
                want = st[0].val
            same(X.ite(c, end, X.UNDEF), X.ite(c, want, X.UNDEF), f"weights '{word}'", f"the weights of '{word}' are wrong")
    I_.lifetimes(r, fn, O, where)


DIRECT = {"dream_apodwin": dream_apodwin, "py_fftconv_p": py_fftconv, "py_fftconv_p 1-D B": lambda r: py_fftconv(r, (1,)), "py_fftconv_p 1-D": lambda r: py_fftconv(r, (0, 1)), "rect_sir": rect_sir, "dream_att": dream_att}


def direct(fn):
    r = K.Result("P18")
    DIRECT[fn](r)
    return r


def job(a):
    return a[0](a[1])


def check(tier):
    return parallel("P18", job, [(one, f) for f in FUNCS] + [(direct, f) for f in DIRECT])
