from fractions import Fraction as Q
from sa import arrays, compose, gsa, kernels as K, octave, expr as X
from .common import parallel, TECH_KERNEL as TECHNIQUE
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 2
NOTE = ("The binding and its worker are composed and reduced to one normal form per loop nest, which must be that of the reference in "
        "spec/block.cc for every size and selection. Row and column selections are taken to be whole numbers inside A (validated by the "
        "binding before). Trusts clang's front end and sa/.")
EXPLAIN = ("copy_p/add_p: what is written, where, and from which element of B, for every column of a thread's range; the ranges are the "
           "subject of P10. One obligation per function: normal form of all stores through the matrix arguments equals the reference's.")
ASSUME = ["the selections are whole numbers within the dimensions of A", "A and B do not overlap", "no 64-bit index overflows"]


def whole(effects):
    """the elements of the two selections are whole numbers of at least one"""
    m = {}

    def sel(a):
        if a.kind == "ld" and isinstance(a.args[0], X.Poly):
            b, off = gsa.base_of(a.args[0])
            c = off.const()
            if b is not None and b.kind == "sym" and b.args[0] == "data" and b.args[1] in (1, 2) and c in (0, 8):
                return octave.pin("sel", b.args[1], int(c) // 8, dom=(1, None))
    for e in effects:
        for n in [e.cond, e.addr, e.val] + list(e.args or ()) + [c for l in e.loops for _, c in l.args[1]] + list(e.tcs):
            if n is not None:
                for a in X.atomset(n):
                    s = sel(a)
                    if s is not None:
                        m[a] = s
    S = X.Subst(m)
    for e in effects:
        loops = tuple(next(iter(S.node(X.at(l)).leaf.atoms())) for l in e.loops)
        T = S
        e.cond = T.node(e.cond)
        e.addr = T.node(e.addr) if e.addr is not None else None
        e.val = T.node(e.val) if e.val is not None else None
        e.tcs = tuple(T.node(t) for t in e.tcs)
        e.loops = loops
    return effects


def token(e):
    if e.kind not in ("store", "acc", "memset", "memcpy"):
        return None
    n = e.addr
    b, _ = gsa.base_of(next(iter(X.leaves(n, set()))))
    if b is None or b.kind != "sym" or b.args[0] != "data":
        return None
    return [(e.kind, [e.addr], e.val)] if e.kind == "acc" else [(e.kind, [e.addr, e.val] + list(e.args or ()), X.TRUE)]


def block(fn):
    r = K.Result("P11")
    u = compose.Unit([(f"extra_src/oct_{fn}.cc", "oct")], allstd=True)
    F = u.one(rf"^F{fn}\(octave_value_list const&")
    h = octave.Calls(u.m, compose.array_call)
    F.mod.body(F)
    T = compose.Threaded(u, F, method=False, on_call=h, params=octave.params(F), arrays=True)
    impl = [e for e in T.compose() if e.kind != "call"]
    if T.start is None:
        raise compose.AnalysisError(f"range of {T.worker.dem} not recognised")
    d = lambda k: octave.pin("data", k, ptr=True)
    rows = lambda k: octave.pin("rows", k, dom=(0, None))
    S = K.spec_unit("block").one(rf"^spec_{fn}\b")
    S.mod.body(S)
    R = gsa.Summary(S, params=K.RANGE + [d(0), rows(0), d(1), d(2), d(3), rows(3)], on_call=compose.array_call, tag="S", arrays=True)
    r.note("functions analysed", 2)
    r.note("programs compared", 1)
    impl, ref = whole(impl), whole(R.effects)
    first = K.compare(K.Result("P11"), T.worker, impl, ref, token=token, clears=False)
    if not first.findings:
        r.add(first)
        return r
    try:
        r.add(contents(T, impl, R, ref))
    except (arrays.Unresolved, X.TooBig, gsa.Unsupported):
        r.add(first)
    return r


def contents(T, impl, R, ref):
    """organised differently: the contents of A inside and outside the block, and of B, after the loop over the range"""
    r = K.Result("P11")
    S = lambda n: X.patom(X.atom("sym", n, isint=True, dom=(0, None)))
    sel = lambda a, k: octave.pin("sel", a, k, dom=(1, None)).leaf
    rows = lambda k: octave.pin("rows", k, dom=(0, None)).leaf
    ge = lambda a, b: X.padd(a, b, -1)
    one = X.ONE
    st, sp = K.RANGE[0].leaf, K.RANGE[1].leaf
    c, j, i = X.padd(st, S("K")), S("J"), S("I")
    n = X.padd(ge(sel(1, 1), sel(1, 0)), one)       # rows selected
    facts = [ge(sp, X.padd(c, one)), st, ge(sel(1, 1), sel(1, 0)), ge(rows(0), sel(1, 1)), ge(rows(3), n)]
    A, B = gsa.mark_ptr(X.atom("sym", "data", 0, isint=True)), gsa.mark_ptr(X.atom("sym", "data", 3, isint=True))
    e = X.pscale(one, Q(8))
    col = X.pmul(rows(0), X.padd(ge(sel(2, 0), one), c))
    at = lambda p: X.pscale(p, Q(8))
    places = [("inside the selected block", [ge(n, X.padd(j, one))], A, at(X.padd(X.padd(col, ge(sel(1, 0), one)), j))),
              ("above the selected block", [ge(sel(1, 0), X.padd(X.padd(i, one), one))], A, at(X.padd(col, i))),
              ("below the selected block", [ge(rows(0), X.padd(X.padd(sel(1, 1), i), one))], A, at(X.padd(X.padd(col, sel(1, 1)), i))),
              ("in B", [], B, at(i))]
    for what, more, b, off in places:
        f = facts + more
        x = K.contents(impl, T.W.heap, f, [(b, off)])[0]
        y = K.contents(ref, R.heap, f, [(b, off)])[0]
        if x is not y:
            x, y = K.settle(x, y, f)
        if x is y:
            r.ok(f"{K.floc(T.worker)}: content {what} equals the reference's")
        else:
            r.bad(K.Finding(K.floc(T.worker), f"content {what} differs from the reference", K.show_diff(x, y)))
    return r


def check(tier):
    return parallel("P11", block, ["copy_p", "add_p"])
