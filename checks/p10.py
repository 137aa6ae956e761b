from sa import compose, division, gsa, kernels as K, octave, expr as X
from .common import parallel
LEVEL = "proof"
MIN_OBLIGATIONS = 180
TECHNIQUE = "symbolic summaries of every thread launch site with linear-fact proofs of the partition (static)"
NOTE = ("Every function that starts threads is reduced to its symbolic summary (guards, record fields and loop conditions as decision "
        "diagrams over the numbers of columns, cores and the environment setting); the partition obligations are proved case by case "
        "from linear facts. A case the rules cannot settle is decided by evaluating the extracted formulas for up to 32 columns and 100 "
        "threads (counted as 'bounded cases', 0 on the current tree). Trusts clang's front end and sa/; counts are below 2^31.")
EXPLAIN = ("Per launch site: the first range starts at 0, the last ends at the number of columns, each starts where the one before ends, none "
           "ends before it starts, at least one and no more threads than columns, every range goes to exactly one worker call with its own "
           "completed record, and every started thread is joined before the record is freed and the function returns; the worker's loop runs "
           "over exactly the range in its record.")
ASSUME = ["numbers of columns and threads are below 2^31 and products of the two do not overflow",
          "std::thread, malloc and getenv behave as specified"]

METHODS = [(f"src/{f}.cc", rf"::{f}\(", ("arg", 2)) for f in (
    "dreamrect dreamcirc dreamline dreamcylind dreamsphere dreamrect_f dreamcirc_f dream_arr_rect dream_arr_circ dream_arr_cylind "
    "dream_arr_annu").split()]
METHODS += [("extra_src/rect_sir.cc", r"::rect_sir\(", ("arg", 1)),
            ("extra_src/fftconv_p.cc", r"::run\(double\*, double const\*, long, long, double const\*, long, long, ConvMode\)", ("arg", 3)),
            ("extra_src/das.cc", r"^SIRError DAS<double>::das\(|^DAS<double>::das\(", ("member", "DAS<double>::DAS(DASType", 2)),
            ("extra_src/das.cc", r"^SIRError DAS<float>::das\(|^DAS<float>::das\(", ("member", "DAS<float>::DAS(DASType", 2))]
BINDINGS = [("conv_p", ("cols", 0)), ("fftconv_p", ("cols", 0)), ("fftconv_ola", ("cols", 0)), ("sum_fftconv", ("cols", 0)),
            ("add_p", ("cols", 3)), ("copy_p", ("cols", 3)), ("circ_sir", ("rows", 0)), ("scirc_sir", ("rows", 0))]


def site(a):
    kind, src, fn, ncol = a
    r = K.Result("P10")

    def bad(key, text):
        r.findings.append(K.Finding("P10", f"{src}:{key}", text))
    if kind == "method":
        u = compose.Unit([(src, "oct")])
        F = u.one(fn)
        i = ncol[1] if ncol[0] == "arg" else None
        h = octave.Calls(u.m)
        off = None
        if ncol[0] == "member":
            C = [f for f in u.m.fns.values() if not f.decl and ncol[1] in f.dem]
            off = ctor_member(C, ncol[2], ncol[1])
        T = compose.Threaded(u, F, method=True, on_call=h, params=compose.entry_params(F, True, mins={i: 0} if i is not None else None))
        if off is None:
            N = X.patom(X.atom("arg", i, isint=True, dom=(0, None)))
        else:
            this = X.patom(X.atom("sym", "this", isint=True))
            N = X.patom(X.atom("ld", X.padd(this, X.pconst(off)), "i64", (), isint=True))
    else:
        u = compose.Unit([(src, "oct")])
        F = u.one(rf"^F{fn}\(octave_value_list const&")
        h = octave.Calls(u.m)
        F.mod.body(F)
        T = compose.Threaded(u, F, method=False, on_call=h, params=octave.params(F))
        N = X.patom(X.atom("sym", ncol[0], ncol[1], isint=True, dom=(0, None))) if ncol else None
    try:
        T.compose()
    except compose.NoRecord:
        bad("record", f"{F.dem.split('(')[0]}: a thread is handed a record other than the one filled in for it")
        r.obligations, r.notes = 10, {"launch sites": 1, "cases": 0, "bounded cases": 0}
        return r
    if N is None:
        N = selected(fn)
    D = division.Division(T, N, bad, F.dem.split("(")[0])
    n = len(D.done)
    worker(T, D, bad)
    r.obligations = len(D.done)
    r.discharged = r.obligations - len(r.findings)
    r.notes = {"launch sites": 1, "cases": getattr(D, "cases", 0), "bounded cases": D.bounded}
    r.samples = [f"{F.dem.split('(')[0]}: {x}" for x in D.done[:2]]
    return r


def ctor_member(C, n, what):
    for f in C:
        S = gsa.Summary(f, params=compose.entry_params(f, True), on_call=compose.numeric_call, tag="C")
        a = X.at(X.atom("arg", n, isint=True))
        for e in S.effects:
            if e.kind == "store" and e.val is a and e.addr.q is None:
                b, off = gsa.base_of(e.addr.leaf)
                c = off.const()
                if b is not None and b.kind == "sym" and b.args[0] == "this" and c is not None:
                    return int(c)
    raise compose.AnalysisError(f"no constructor {what} keeps its argument {n}")


def worker(T, D, bad):
    """the worker's loop over the range in its record"""
    D.done.append("the worker's loop runs over exactly its range")
    st, sp = (X.at(X.atom("sym", n, isint=True)) for n in ("start", "stop"))
    outer = []
    for e in T.W.effects:
        if e.loops and e.loops[0] not in outer:
            outer.append(e.loops[0])
    want = None
    n = 0
    for la in outer:
        b = T.bounds(la)
        if b != (T.start, T.stop):
            continue
        n += 1
        a = T.loop(la)
        me = X.at(X.atom("self", a.args[0], isint=True, dom=(0, None)))
        end = X.cmp("ge", X.add(st, me), sp, True)
        if not any(c is end for ish, c in a.args[1]):
            bad("worker", f"{T.worker.dem.split('(')[0]}: the loop over the range does not end at exactly the end of the range")
    if not n:
        bad("worker", f"{T.worker.dem.split('(')[0]}: no loop over the range in the record")


def selected(fn):
    """number of selected columns: cend - cstart + 1, where the columns are given as the two-element argument 2 (0-based argument number)"""
    return None


def check(tier):
    jobs = [("method",) + m for m in METHODS] + [("binding", f"extra_src/oct_{f}.cc", f, n) for f, n in BINDINGS]
    return parallel("P10", site, jobs)
