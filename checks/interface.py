"""The documented interface of the response functions, and the comparison of a binding with it."""
from functools import reduce
from sa import compose, gsa, kernels as K, octave, octflow, witness, expr as X
from sa.octave import pin
from sa.octflow import elem

FOCUS = {"off": "none", "x": "x", "y": "y", "xy": "xy", "on": "xy", "x+y": "x_y", "ud": "ud"}
STEER = {"off": "none", "x": "x", "y": "y", "xy": "xy"}
APOD = {"off": None, "triangle": "triangle", "gauss": "gauss", "raised": "raised_cosine", "hann": "hann", "hamming": "hamming",
        "simply": "simply_supported", "clamped": "clamped", "ud": "ud"}
LEVELS = {"ignore": "ignore", "warn": "warn", "stop": "stop"}

# name: (geometry values, kind, fewest and most arguments, positions)
FUNCS = {
    "dreamrect": (2, "plain", 5, 7), "dreamcirc": (1, "plain", 5, 7), "dreamline": (1, "plain", 5, 6),
    "dreamcylind": (3, "plain", 5, 6), "dreamsphere": (2, "plain", 5, 6),
    "dreamrect_f": (2, "focused", 7, 8), "dreamcirc_f": (1, "focused", 7, 8),
    "dream_arr_rect": (2, "array", 13, 14), "dream_arr_circ": (1, "array", 13, 14), "dream_arr_cylind": (3, "array", 13, 14),
    "dream_arr_annu": (0, "annular", 10, 11),
}


def rows(k):
    return pin("rows", k, dom=(0, None))


def cols(k):
    return pin("cols", k, dom=(0, None))


def scalar(k):
    return pin("scalar", k, isint=False)


def numel(k):
    return X.mul(rows(k), cols(k))


def eq(a, b):
    return X.cmp("eq", a, b if isinstance(b, X.Node) else X.num(b), True)


def ge(a, b):
    return X.cmp("ge", a, b if isinstance(b, X.Node) else X.num(b), True)


def all_(*xs):
    return reduce(X.AND, xs, X.TRUE)


def any_(*xs):
    return reduce(X.OR, xs, X.FALSE)


def vec(k, n):
    return X.OR(X.AND(eq(rows(k), n), eq(cols(k), 1)), X.AND(eq(rows(k), 1), eq(cols(k), n)))


def text(k):
    return X.truth(pin("is_string", k, dom=(0, 1)))


def is_word(k, w):
    return eq(pin("str", k, dom=(0, None)), octave.word(w))


def choice(k, table, f, default=X.UNDEF):
    r = default
    for w, v in table.items():
        r = X.ite(is_word(k, w), f(v), r)
    return r


def enum(ty, default=None):
    return lambda v: X.num(compose.enums()[ty].index(v))


class Interface:
    """the documented interface of one function: valid (condition), args (list of (name, node, condition under which it matters))"""

    def __init__(self, fn, py=False, flat=()):
        geo, kind, lo, hi = FUNCS[fn]
        nrhs, nlhs = pin("nrhs", dom=(0, None)), pin("nlhs", dom=(0, None))
        req = [ge(nrhs, lo), X.NOT(ge(nrhs, hi + 1)), X.NOT(ge(nlhs, 3))] if not py else []
        req.append(eq(cols(0), 3))
        text = (lambda k: X.TRUE) if py else globals()["text"]
        ptr = lambda k: pin("data", k, ptr=True)
        k = 1
        g = None
        if kind != "annular":
            req.append(vec(1, geo))
            g = 1
            k = 2
        arr = None
        ne = X.num(1)
        if kind == "array":
            arr = k
            req.append(eq(cols(k), 3))
            ne = rows(k)
            k += 1
        if kind == "annular":
            arr = k
            n = numel(k)
            req += [X.OR(eq(rows(k), 1), eq(cols(k), 1)), X.NOT(eq(rem2(n), 0))]
            ne = half(X.add(n, X.num(1)))
            k += 1
        samp, delay, mat = k, k + 1, k + 2
        req += [vec(samp, 4), X.OR(eq(numel(delay), 1), eq(numel(delay), rows(0))), vec(mat, 3)]
        k += 3
        T = X.TRUE
        foc = steer = apod = None
        self.bufs = []
        if kind != "plain":
            foc = k
            ud = is_word(foc, "ud")
            req += [text(foc), any_(*[is_word(foc, w) for w in FOCUS]),
                    X.ite(ud, eq(numel(foc + 1), ne), eq(numel(foc + 1), 1))]
            k += 2
            self.bufs.append(("focal", X.NOT(ud), X.num(1), lambda i: elem(foc + 1, 0), X.NOT(is_word(foc, "off"))))
            self.bufs.append(("focal", ud, ne, lambda i: elem(foc + 1, X.pscale(i, 8)), ud))
        if kind == "array":
            steer = k
            req += [text(steer), any_(*[is_word(steer, w) for w in STEER]), vec(steer + 1, 2)]
            k += 2
        if kind in ("array", "annular"):
            apod = k
            ud2 = is_word(apod, "ud")
            req += [text(apod), any_(*[is_word(apod, w) for w in APOD]), X.ite(ud2, eq(numel(apod + 1), ne), T),
                    *([] if py else [eq(rows(apod + 2), 1), eq(cols(apod + 2), 1)])]
            k += 3
            self.bufs.append(("apod", ud2, ne, lambda i: elem(apod + 1, X.pscale(i, 8)), ud2))
        level = k
        given = X.TRUE if py else ge(nrhs, level + 1)
        req.append(X.ite(given, X.AND(text(level), any_(*[is_word(level, w) for w in LEVELS])), T))
        if fn in ("dreamrect", "dreamcirc") and not py:
            req.append(X.ite(ge(nrhs, level + 2), text(level + 1), T))
        self.valid = all_(*req)
        self.nreq = len(req)
        self.grid = arr if kind == "array" else None
        a = [("alpha", elem(mat, 2), T), ("Ro", ptr(0), T), ("No", rows(0), T)]
        a += [(f"geometry {j}", elem(g, j), T) for j in range(geo)]
        fm = choice(foc, FOCUS, enum("FocusMet")) if foc is not None else None
        if kind == "focused":
            a += [("foc_met", fm, T), ("focal distance", elem(foc + 1, 0), X.NOT(X.OR(is_word(foc, "off"), is_word(foc, "ud"))))]
        a += [(x, elem(samp, j), T) for j, x in enumerate(("dx", "dy", "dt"))]
        a += [("nt", f2i(elem(samp, 3)), T),
              ("delay_type", X.ite(eq(numel(delay), 1), X.num(0), X.num(1)), ge(rows(0), 2)),
              ("delay", ptr(delay), T), ("v", elem(mat, 0), T), ("cp", elem(mat, 1), T)]
        if kind in ("array", "annular"):
            a += [("number of elements", ne if kind == "array" else numel(arr), T), ("element grid", ptr(arr), T), ("foc_met", fm, T), ("focal", "focal", T)]
            if steer is not None:
                sm = X.NOT(is_word(steer, "off"))
                a += [("steer_met", choice(steer, STEER, enum("SteerMet")), T), ("theta", elem(steer + 1, 0), sm), ("phi", elem(steer + 1, 1), sm)]
            on = X.NOT(is_word(apod, "off"))
            a += [("apod", "apod", T), ("do_apod", X.ite(on, X.num(1), X.num(0)), T),
                  ("apod_met", choice(apod, {w: v for w, v in APOD.items() if v}, enum("ApodMet")), on),
                  ("apod_par", elem(apod + 2, 0), X.AND(on, X.NOT(is_word(apod, "ud"))))]
        self.nt = f2i(elem(samp, 3))
        a += [("h", "h", T), ("err_level", X.ite(given, choice(level, LEVELS, enum("ErrorLevel")), X.num(compose.enums()["ErrorLevel"].index("stop"))), T)]
        self.args = a
        if flat:        # one-dimensional arguments have one column
            f = X.Subst({cols(k).leaf.t[0][0][0][0]: X.num(1) for k in flat}).node
            self.valid = f(self.valid)
            self.args = [(x, f(n) if isinstance(n, X.Node) else n, f(c)) for x, n, c in a]
            self.bufs = [(x, f(w), f(n), v, f(c)) for x, w, n, v, c in self.bufs]


def rem2(n):
    return X.fn("srem", n, X.num(2))


def half(n):
    return X.fn("sdiv", n, X.num(2))


def f2i(n):
    return X.fn("f2i", n)


def one(fn):
    r = K.Result("P13")
    u = compose.Unit([(f"oct/oct_{fn}.cc", "oct")], keep=("std::unique_ptr", "std::vector"))
    I = Interface(fn)
    O = octflow.Outcome(u, fn, fn, given=I.valid)
    where = K.floc(u.one(rf"^F{fn}\(octave_value_list const&"))
    return judge(r, fn, I, O, where, lambda *a: (outputs(*a), lifetimes(r, fn, O, where)))


def reporter(r, fn, I, where):
    """(ob, same): ways to record an obligation"""

    def fixed(n, key):
        """with the quantities put in that every documented call agrees on"""
        return I.fixed(n) if key != "accepted arguments" and hasattr(I, "fixed") else n

    def ob(good, key, what, detail=""):
        (r.ok(f"{fn}: {key}") if good else r.bad(K.Finding(where, f"{fn}: {what}", detail, f"{fn}:{key}")))

    def same(got, want, key, what):
        """got and want agree; a difference is reported with an argument list that shows it"""
        full = got, want = fixed(got, key), fixed(want, key)
        if got is not want:
            got, want = X.strip_bot(got), X.strip_bot(want)
        if got is not want:
            got, want = K.settle(got, want, ())
        d = "same" if got is want else witness.compare(*full, known)
        if isinstance(d, tuple):
            ob(False, key, what, witness.show(d))
        elif d == "unknown":
            raise compose.AnalysisError(f"{fn}: {key}: neither the same nor different at any argument list tried")
        else:
            if d == "bounded":
                r.note("bounded")
            ob(True, key, what)
    return ob, same


def judge(r, fn, I, O, where, results):
    ob, same = reporter(r, fn, I, where)
    if not O.calls:
        raise compose.AnalysisError(f"{fn}: no call of the computing method")
    call = O.calls[0]
    if len(O.calls) > 1:
        raise compose.AnalysisError(f"{fn}: {len(O.calls)} calls of the computing method")
    V = I.valid
    x = O.node(O.whole[call])
    for case in getattr(I, "cases", (lambda n: n,)):
        same(case(x), case(V), "accepted arguments", "the computation is not reached exactly for the documented arguments")
    if call.loops:
        r.bad(K.Finding(where, f"{fn}: the computation is started in a loop", "", f"{fn}:loop"))
    r.note("requirements", I.nreq)
    args = call.args[1:]
    if len(args) != len(I.args):
        raise compose.AnalysisError(f"{fn}: {len(args)} arguments, expected {len(I.args)}")
    ptrs = {}
    for (nm, want, used), a in zip(I.args, args):
        c = X.AND(V, used)
        got = X.ite(c, O.node(a), X.UNDEF)
        if isinstance(want, str):
            ls = set(octflow.leaves(got))
            b, off = gsa.base_of(next(iter(ls))) if len(ls) == 1 else (None, None)
            ob(b is not None, nm, f"{nm} is not one buffer", str(got)[:300])
            ptrs[want] = next(iter(ls)) if len(ls) == 1 else None
            continue
        same(got, X.ite(c, want, X.UNDEF), f"argument {nm}", f"{nm} is handed over wrongly")
    i = X.atom("tmp", 77, isint=True, dom=(0, None))
    for nm, when, n, val, used in I.bufs:
        p = ptrs.get(nm)
        if p is None:
            continue
        c = all_(V, when, used, X.cmp("lt", X.at(i), n, True))
        got = X.ite(c, O.at_call(call, p, X.pscale(X.patom(i), 8)), X.UNDEF)
        want = X.ite(c, val(X.patom(i)), X.UNDEF)
        same(got, want, f"values in {nm}", f"the values in {nm} are not those of the argument")
    results(O, I, V, call, ptrs.get("h"), i, fn, ob, same)
    return r


def lifetimes(r, fn, O, where, more=()):
    n, bad = O.st.dangling(more)
    r.note("uses of argument data", n)
    for e, k in bad:
        r.bad(K.Finding(K.loc(e.ins), f"{fn}: the elements of argument {k + 1} are used after the matrix that holds them is gone", "", f"{fn}:dangling {k}"))
    if not bad:
        r.ok(f"{fn}: lifetimes")


def matrix(O, I, V, call, h, i, fn, ob, same):
    """the response goes to a zeroed nt x No matrix made here, and stays as it is"""
    b = gsa.base_of(h)[0] if h is not None else None
    ok = b is not None and b.kind == "sym" and b.args[0] == "out"
    ob(ok, "output buffer", "the computation does not write into a matrix made by the binding")
    if not ok:
        return None
    _, r, c, _ = O.h.new[b.args[1]]
    got = X.ite(V, O.node(O.fix(r)), X.UNDEF)
    same(got, X.ite(V, I.nt, X.UNDEF), "rows", "the result does not have nt rows")
    got = X.ite(V, O.node(O.fix(c)), X.UNDEF)
    want = X.ite(V, rows(0), X.UNDEF)
    same(got, want, "columns", "the result does not have a column per observation point")
    got = X.ite(all_(V, X.cmp("lt", X.at(i), X.mul(I.nt, rows(0)), True)), O.at_call(call, h, X.pscale(X.patom(i), 8)), X.UNDEF)
    want = X.ite(all_(V, X.cmp("lt", X.at(i), X.mul(I.nt, rows(0)), True)), X.FALSE, X.UNDEF)
    same(got, want, "zeroed", "the result is not zero before the computation")
    c = all_(V, X.cmp("lt", X.at(i), X.mul(I.nt, rows(0)), True))
    end = X.ite(c, O.at_end(h, X.pscale(X.patom(i), 8)), X.UNDEF)
    want = X.ite(c, X.at(X.atom("sym", "response", X.patom(i))), X.UNDEF)
    same(end, want, "kept", "the result is changed after the computation")
    return b.args[1]


def outputs(O, I, V, call, h, i, fn, ob, same):
    outs = O.outputs()
    if not outs:
        raise compose.AnalysisError(f"{fn}: no value returned")
    nlhs = pin("nlhs", dom=(0, None))
    made = matrix(O, I, V, call, h, i, fn, ob, same)
    if made is None:
        return
    for k, (cond, what, e) in enumerate(outs):
        want = V if k == 0 else X.AND(V, eq(nlhs, 2))
        cond = O.node(cond)
        if k == 0:
            same(cond, want, "returned", "the result is not returned for exactly the documented arguments")
            ok = what and what[0] == "held" and all(w == ("new", made) for c2, w in what[1]) and what[1]
            ob(ok, "first output", "the first value returned is not the computed matrix", str(what)[:300])
        if k == 1:
            same(cond, want, "status returned", "the status is not returned when asked for")
            if what and what[0] == "value":
                v = O.node(what[1])
            elif what and what[0] == "held" and len(what[1]) == 1 and what[1][0][1][0] == "new":
                n = what[1][0][1][1]
                v = O.at_end(gsa_leaf(pin("out", n, ptr=True)), X.ZERO)
                _, r, c, _ = O.h.new[n]
                ob(r is X.num(1) and c is X.num(1), "status shape", "the status is not a scalar")
            else:
                v = None
            if v is None:
                ob(False, "status", "the second value returned is not the status of the computation", str(what)[:200])
            else:
                same(X.ite(want, v, X.UNDEF), X.ite(want, O.node(call.val), X.UNDEF), "status",
                     "the second value returned is not the status of the computation")
    ob(len(outs) == 2, "outputs", f"{len(outs)} values are returned")


PINS = ("is_wisdom", "import_wisdom", "ndims", "scalar", "no such extent", "rows", "cols", "pages", "nrhs", "nlhs", "is_string", "str", "data", "fdata", "out", "buf", "response", "word",
        "is_single_type", "is_double_type")


def known(a):
    """a quantity whose value is free"""
    if a.kind == "sym":
        return a.args[0] in PINS
    if a.kind == "ld":
        b, _ = gsa.base_of(a.args[0])
        return b is not None and (b.kind == "sym" and b.args[0] in ("data", "fdata") or b.kind == "glob" or b.kind == "ld" and known(b))
    if a.kind == "fn":
        return all(known(x) for p in a.args[1:] if isinstance(p, X.Poly) for x in p.atoms())
    if a.kind == "ret":
        return ("dream" in str(a.args[0]) and "is_running" not in str(a.args[0]))
    return a.kind in ("tmp", "uninit")


def gsa_leaf(n):
    return n.leaf
