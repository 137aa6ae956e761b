"""What the entry points and their workers access, for the proofs that it lies inside the arrays (P15) and that no other thread
writes it (P16)."""
from sa import access as A, compose, gsa, kernels as K, octave, expr as X
from sa.expr import at, atom, num, mul, ite, cmp, TRUE
from . import p10
def columns(a, nt, st, sp):
    """bytes of columns [st, sp) of an array with nt rows of doubles"""
    return mul(num(8), mul(nt, st)), mul(num(8), mul(nt, sp))


class Sizes:
    """extents of the arrays of an entry point; whole: as documented, own: the columns of the thread"""

    def __init__(self):
        self.whole, self.own = {}, {}

    def put(self, n, size, own=None):
        b = n.leaf.t[0][0][0][0]
        self.whole[b] = (num(0), size)
        if own is not None:
            self.own[b] = own


def response(dt, nt, h, **arr):
    """a response function: dt = position of the delay type minus 0, nt/h positions; arr: further arrays"""
    def f(a, st, sp):
        s = Sizes()
        No = a[arr.get("no", 2)]
        s.put(a[arr.get("no", 2) - 1], mul(num(24), No))
        s.put(a[h], mul(num(8), mul(a[nt], No)), columns(a, a[nt], st, sp))
        one = compose.enums()["DelayType"].index("single")
        s.put(a[dt + 1], mul(num(8), ite(cmp("eq", a[dt], num(one), True), num(1), No)))
        if "el" in arr:
            e = a[arr["el"]]
            ud = cmp("eq", a[arr["met"]], num(compose.enums()["FocusMet"].index("ud")), True)
            s.put(a[arr["grid"]], mul(num(8), mul(num(arr["per"]), e)))
            s.put(a[arr["foc"]], mul(num(8), ite(ud, arr["cnt"](e), num(1))))
            s.put(a[arr["apod"]], mul(num(8), arr["cnt"](e)))
        return s
    f.no = arr.get("no", 2)
    f.el = arr.get("el")
    f.cnt = arr.get("cnt")
    return f


def planar(el, **k):
    return dict(el=el, grid=el + 1, met=el + 2, foc=el + 3, apod=el + 7, per=3, cnt=lambda e: e)


SRC = {"dream_arr_rect": ["dreamrect"], "dream_arr_circ": ["dreamcirc"], "dream_arr_cylind": ["dreamcylind"], "dream_arr_annu": ["dreamcirc"]}
RESP = {
    "dreamrect": response(9, 8, 13), "dreamcirc": response(8, 7, 12), "dreamline": response(8, 7, 12), "dreamcylind": response(10, 9, 14),
    "dreamsphere": response(9, 8, 13), "dreamrect_f": response(11, 10, 15), "dreamcirc_f": response(10, 9, 14),
    "dream_arr_rect": response(9, 8, 24, **planar(13)), "dream_arr_circ": response(8, 7, 23, **planar(12)),
    "dream_arr_cylind": response(10, 9, 25, **planar(14)),
}
RESP["dream_arr_annu"] = response(7, 6, 19, el=11, grid=12, met=13, foc=14, apod=15, per=1,
                                  cnt=lambda e: X.fn("sdiv", X.add(e, TRUE), num(2)))
RESP["rect_sir"] = response(6, 5, 10, no=1)


def das_sizes(T, u, F, dt):
    sz = 8 if dt == "double" else 4
    this = atom("sym", "this", isint=True)
    off = {}
    for C in u.m.fns.values():
        if not C.decl and f"DAS<{dt}>::DAS(DASType" in C.dem:
            for e in gsa.Summary(C, params=compose.entry_params(C, True), on_call=compose.numeric_call, tag="C").effects:
                if e.kind == "store" and e.val.q is None and e.addr.q is None:
                    b, o = gsa.base_of(e.addr.leaf)
                    x = e.val.leaf.t[0][0][0][0] if e.val.leaf.t and e.val.leaf.t[0][0] else None
                    if b is this and x is not None and x.kind == "arg" and X.patom(x) is e.val.leaf:
                        off[x.args[0]] = o, e.size

    def member(k):
        if k not in off:
            raise compose.AnalysisError(f"no constructor of DAS<{dt}> keeps its argument {k}")
        o, ty = off[k]
        return at(atom("ld", X.padd(X.patom(this), o), str(ty), (), isint=True))

    def f(a, st, sp):
        ty, ln, no, nt, nr = (member(k) for k in range(5))
        s = Sizes()
        s.no = no
        s.counts = {}
        for n, x, lo in (("len", ln, 0), ("Nt", nt, 1), ("Nr", nr, 0)):
            s.counts[x.leaf.t[0][0][0][0]] = at(atom("sym", n, isint=True, dom=(lo, None)))
        s.put(a[0], mul(num(sz), mul(ln, mul(nt, ite(saft_like(ty, nr), num(1), nr)))))
        s.put(a[1], mul(num(3 * sz), no))
        s.put(a[2], mul(num(3 * sz), nt))
        s.put(a[3], mul(num(3 * sz), nr))
        one = compose.enums()["DelayType"].index("single")
        s.put(a[6], mul(num(sz), ite(cmp("eq", a[5], num(one), True), num(1), no)))
        s.put(a[8], mul(num(sz), no), (mul(num(sz), st), mul(num(sz), sp)))
        return s
    return f


def saft_like(ty, nr):
    return X.OR(cmp("eq", ty, num(das_types().index("saft")), True), cmp("eq", nr, num(0), True))


def das_types():
    return compose.enums()["DASType"]


PAGES = {"sum_fftconv": (0,)}           # arguments with three dimensions
KERN = {"conv_p": ["conv"], "fftconv_p": ["fftconv"], "fftconv_ola": ["fftconv"], "sum_fftconv": ["fftconv"], "circ_sir": ["circ_sir"],
        "scirc_sir": ["scirc_sir", "circ_sir"]}


def binding_sizes(h, cols, pages, block=False):
    def f(a, st, sp):
        s = Sizes()
        s.no = cols
        s.strides = {}
        s.counts = {}
        for k in range(12):
            n = mul(octave.pin("rows", k, dom=(0, None)), octave.pin("cols", k, dom=(0, None)))
            if k in pages:
                n = mul(n, octave.pin("pages", k, dom=(0, None)))
            rows = octave.pin("rows", k, dom=(0, None))
            o = num(0)
            if block and not k:                 # from the first column of the block, given by the third argument
                o = X.sub(X.fn("f2i", at(atom("ld", octave.pin("data", 2, ptr=True).leaf, "double", ()))), TRUE)
            for d, w in (("data", 8), ("fdata", 4)):
                s.put(octave.pin(d, k, ptr=True), mul(num(w), n), tuple(mul(num(w), mul(rows, X.add(o, q))) for q in (st, sp)))
        for k, (ty, r, c, _) in enumerate(h.new):
            w = 4 if ty.startswith("Float") else 8
            s.strides[octave.pin("out", k, ptr=True).leaf.t[0][0][0][0]] = [r, c]     # a matrix that was made has no negative dimension
            s.put(octave.pin("out", k, ptr=True), mul(num(w), mul(r, c)), tuple(mul(num(w), mul(r, q)) for q in (st, sp)))
        return s
    return f


def convolution(a, st, sp):
    """FFTConvP::run(Y, A, A_M, A_N, B, B_M, B_N, mode), called with inputs that are not empty"""
    s = Sizes()
    s.no = a[3]
    one = lambda n: cmp("eq", n, TRUE, True)
    bm = ite(X.OR(one(a[5]), one(a[6])), mul(a[5], a[6]), a[5])
    s.pre = X.OR(one(a[5]), X.OR(one(a[6]), cmp("eq", a[6], a[3], True)))
    n = X.sub(X.add(a[2], bm), TRUE)
    s.strides = {a[0].leaf.t[0][0][0][0]: [n, a[3]]}
    s.put(a[0], mul(num(8), mul(n, a[3])), columns(a, n, st, sp))
    s.put(a[1], mul(num(8), mul(a[2], a[3])))
    s.put(a[4], mul(num(8), mul(a[5], a[6])))
    return s


def absorption():
    """Attenuation::att(xc, x, r, it, h, ai, element) on an object made by the constructor"""
    u = compose.Unit([("src/dreamrect.cc", "oct"), ("src/attenuation.cc", "oct")], keep=("^Attenuation::",), allstd=True)
    C, F = u.one(r"^Attenuation::Attenuation\("), u.one(r"^Attenuation::att\(")
    new, att = (gsa.Summary(f, params=compose.entry_params(f, True), on_call=octave.Calls(u.m, A.allocating(compose.array_call)), on_read=A.on_read,
                            tag=t, arrays=True) for f, t in ((C, "E"), (F, "W")))
    n = at(atom("sym", "filter length", isint=True, dom=(1, None)))
    el = at(atom("sym", "element", isint=True, dom=(0, None)))
    ps = compose.entry_params(F, True)
    cs = compose.entry_params(C, True)
    T = compose.Threaded.__new__(compose.Threaded)
    T.sub = X.Subst({cs[1].leaf.t[0][0][0][0]: n})
    E = [T.subst_effect(e) for e in new.effects]
    T.sub = X.Subst({ps[7].leaf.t[0][0][0][0]: el})
    W = [T.subst_effect(e) for e in att.effects]
    for _ in range(2):
        T.sub = X.Subst(A.inherited(W, E, also="sym"))
        W = [T.subst_effect(e) for e in W]
    S = Sizes()
    held = lambda p: at(atom("ld", p.leaf, "ptr", (), isint=True))
    S.put(held(ps[1]), mul(num(16), n))
    S.put(held(ps[2]), mul(num(8), n))
    S.put(ps[5], mul(num(8), mul(n, X.add(el, TRUE))))
    return [("constructor", A.Judge(E, []), {}), ("method", A.Judge(W, []), S.whole)]


def launches(T):
    """when a worker runs"""
    c = X.FALSE
    for l in T.L:
        c = X.OR(c, l.effect.cond)
    return c


class Scene:
    pass


def scene(a):
    """the composed effects of a case: ("resp", name), ("das", type), ("bind", name), ("run", ..), ("att", ..)"""
    kind, name = a[0], a[1]
    h = None
    if kind == "run":
        u = compose.Unit([("extra_src/fftconv_p.cc", "oct"), ("extra_src/fftconv.cc", "oct")], allstd=True)
        F = u.one(r"::run\(double\*, double const\*, long, long, double const\*, long, long, ConvMode\)")
        args = compose.entry_params(F, True, mins={2: 1, 3: 0, 5: 1, 6: 1})
        T = compose.Threaded(u, F, arrays=True, on_call=octave.Calls(u.m, A.allocating(compose.array_call)), on_read=A.on_read, params=args)
        args, spec = args[1:], convolution
    elif kind == "resp":
        src = "extra_src" if name == "rect_sir" else "src"
        srcs = [f"{src}/{name}.cc"] + [f"src/{x}.cc" for x in SRC.get(name, [])] + (["src/arr_functions.cc"] if name in SRC else [])
        u = compose.Unit([(s, "oct") for s in srcs], keep=("^Attenuation::",), allstd=True)
        F = u.one(rf"::{name}\(")
        spec = RESP[name]
        mins = {spec.el: 1} if spec.el is not None else {}
        T = compose.Threaded(u, F, arrays=True, on_call=octave.Calls(u.m, A.allocating(compose.array_call)), on_read=A.on_read,
                             params=compose.entry_params(F, True, fixed_level=False, mins=mins))
        args = compose.entry_params(F, True, fixed_level=False, mins=mins)[1:]
    elif kind == "das":
        u = compose.Unit([("extra_src/das.cc", "oct")], allstd=True)
        F = u.one(rf"^SIRError DAS<{name}>::das\(|^DAS<{name}>::das\(")
        T = compose.Threaded(u, F, arrays=True, on_call=octave.Calls(u.m, A.allocating(compose.array_call)), on_read=A.on_read,
                             params=compose.entry_params(F, True, fixed_level=False, mins={}))
        args = compose.entry_params(F, True, fixed_level=False, mins={})[1:]
        spec = das_sizes(T, u, F, name)
    else:
        f, cols = next(x for x in p10.BINDINGS if x[0] == name)
        u = compose.Unit([(f"extra_src/oct_{f}.cc", "oct")] + [(f"extra_src/{x}.cc", "oct") for x in KERN.get(f, [])], allstd=True)
        F = u.one(rf"^F{f}\(octave_value_list const&")
        F.mod.body(F)
        h = octave.Calls(u.m, A.allocating(compose.array_call))
        T = compose.Threaded(u, F, method=False, arrays=True, on_call=h, on_read=A.on_read, params=octave.params(F), exits=True)
        spec = binding_sizes(h, octave.pin(*cols, dom=(0, None)), PAGES.get(name, ()), name in ("add_p", "copy_p"))
        args = None
    T.worker_read = A.on_read
    T.worker_call = A.allocating(compose.array_call)
    # the range of a worker lies within the columns (shown by P10): [first, first+own) of first+own+behind
    first, own, behind = (at(atom("sym", n, isint=True, dom=(0, None))) for n in ("first", "own", "behind"))
    S = spec(args, first, X.add(first, own))
    No = args[spec.no] if kind == "resp" else S.no
    W = T.compose()
    dims = {}
    for e in W + T.E.effects:
        for n in [e.cond, e.addr, e.val, *(e.args or ()), *e.tcs]:
            if isinstance(n, X.Node):
                dims.update(octave.counts(n))
    S.whole = {b: (lo, X.Subst({**octave.counts(hi), **dims}).node(hi)) for b, (lo, hi) in S.whole.items()}
    S.own = {b: tuple(X.Subst({**octave.counts(q), **dims}).node(q) for q in x) for b, x in S.own.items()}
    S.strides = {b: [X.Subst(octave.counts(n)).node(n) for n in ns] for b, ns in getattr(S, "strides", {}).items()}
    L = launches(T)
    if dims:
        T.sub = X.Subst(dims)
        W = [T.subst_effect(e) for e in W]
        T.E.effects[:] = [T.subst_effect(e) for e in T.E.effects]
        L = T.sub.node(L)
    more = dict(getattr(S, "counts", {}))
    for x in sorted(set().union(*(X.atomset(n) for n in S.whole.values() for n in n)), key=lambda x: x.key):
        if x.kind == "fn" and x.args[0] == "f2i":       # a dimension of a matrix: one that is negative makes no matrix
            more[x] = at(atom("sym", "dim", len(more), isint=True, dom=(0, None)))
    R = X.Subst({atom("sym", "start", isint=True): first, atom("sym", "stop", isint=True): X.add(first, own),
                 No.leaf.t[0][0][0][0]: X.add(X.add(first, own), behind), **more})
    T.sub = R
    W = [T.subst_effect(e) for e in W]
    whole = {b: (R.node(lo), R.node(hi)) for b, (lo, hi) in S.whole.items()}
    L = X.AND(R.node(L), R.node(getattr(S, "pre", TRUE)))
    OUT = [T.subst_effect(e) for e in T.E.effects if all(e.seq < l.effect.seq for l in T.L)]
    T.sub = X.Subst(A.inherited(W, OUT))
    W = [T.subst_effect(e) for e in W]
    r = Scene()
    r.T, r.S, r.W, r.before, r.launch = T, S, W, OUT, L
    r.entry = T.E.effects
    r.pre = getattr(S, "pre", TRUE)
    r.whole = whole
    r.own = {b: (R.node(lo), R.node(hi)) for b, (lo, hi) in S.own.items()}
    r.strides = {b: [R.node(n) for n in ns] for b, ns in S.strides.items()}
    r.range = first, own, behind
    r.R = R
    return r


def judges(s):
    """(who, judge, extents) for the entry point and for a worker"""
    for who, eff, ext in (("entry", s.entry, s.S.whole), ("worker", s.W, s.whole)):
        J = A.Judge(eff, [], launch=s.launch if who == "worker" else s.pre, before=s.before if who == "worker" else None)
        for e in s.before if who == "worker" else ():
            if e.kind == "alloc":
                J.allocated(e)
        J.strides = s.strides
        yield who, J, ext
