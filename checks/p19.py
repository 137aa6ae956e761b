"""Interrupting a computation from Octave and Python."""
from sa import compose, interrupt as N, kernels as K
from .common import parallel

LEVEL = "proof"
MIN_OBLIGATIONS = 330
TECHNIQUE = "typestate of signal handlers, run flag and threads along all paths of the compiled bindings and workers (static)"
NOTE = ("Path analysis over the inlined control-flow graphs; conditions tested more than once are kept apart, others taken both ways. Exceptions are "
        "followed only from calls that do nothing but throw, so an allocation failure between the two is not covered.")
EXPLAIN = ("Per function that starts workers: at every start of a worker the interrupt signal's handler is one that clears the flag this worker reads and "
           "does nothing that is unsafe in a handler, and the flag is set; it is not set again afterwards; on every way out every signal has the handler "
           "it had; on every return after a start the flag has been tested and a cleared one reported. Per worker and loop over its columns: no path "
           "back to the head while the flag reads as cleared; the flag is read as atomic or volatile; in Octave, no way round without a look at the "
           "interrupts Octave has taken, whose exception clears the flag.")
ASSUME = ["Octave announces an interrupt by octave_signal_caught and octave_handle_signal throws interrupt_exception for it", "signal() and std::thread behave as specified", "the functions of the numeric libraries return"]

RESPONSES = ("dreamrect dreamcirc dreamline dreamcylind dreamsphere dreamrect_f dreamcirc_f dream_arr_rect dream_arr_circ dream_arr_cylind "
             "dream_arr_annu").split()
TOOLS = "conv_p fftconv_p fftconv_ola sum_fftconv add_p copy_p circ_sir scirc_sir".split()
OCT = r"^F{}\(octave_value_list const&, int\)$"
KEEP = (r"^[^(]*\bpybind11::", "^dream_err_msg", "^dream_out_of_bounds_err", r"^Attenuation::", r"\bFFTC?Vec::", r"\bFFT::")


def cases():
    for f in RESPONSES:
        yield f + " (Octave)", [(f"oct/oct_{f}.cc", "oct"), (f"src/{f}.cc", "oct")], OCT.format(f)
        yield f + " (Python)", [(f"python/src/py_{f}.cc", "py"), (f"src/{f}.cc", "py")], rf"^py_{f}\(pybind11"
    yield "das (Octave)", [("extra_src/oct_das.cc", "oct"), ("extra_src/das.cc", "oct")], OCT.format("das")
    for t, fl in (("float", "pyf"), ("double", "py")):
        yield f"das (Python, {t})", [("python/src/py_das.cc", fl), ("extra_src/das.cc", fl)], rf"py_das<{t}>\("
    yield "rect_sir (Octave)", [("extra_src/oct_rect_sir.cc", "oct"), ("extra_src/rect_sir.cc", "oct")], OCT.format("rect_sir")
    yield "fftconv_p (Python)", [("python/src/py_fftconv_p.cc", "py"), ("extra_src/fftconv_p.cc", "py")], r"py_fftconv_p<double>\(|^py_fftconv_p\("
    for f in TOOLS:
        yield f + " (Octave)", [(f"extra_src/oct_{f}.cc", "oct")], OCT.format(f)


def one(a):
    name, srcs, rx = a
    r = K.Result("P19")
    u = compose.Unit(srcs, keep=KEEP, allstd=True)
    F = u.one(rx)
    where = K.floc(F)
    P = N.Paths(u, F, set(u.workers)).run()
    if not P.launches:
        raise compose.AnalysisError(f"{name}: no start of a worker found")
    r.note("functions")
    for key, i, text in P.found:
        r.bad(K.Finding(K.loc(i) if i.line else where, f"{name}: {text}", "", f"{name}:{key}"))
    for i in P.launches:
        for key in ("no handler", "not raised", "raised late"):
            if not any(k == key for k, _, _ in P.found):
                r.ok(f"{where}: {key} at {K.loc(i)}")
    for i in P.returns:
        r.ok(f"{where}: return at {K.loc(i)}")
    for n, i in P.installs:
        if not any(k.endswith(f" {n}") for k, _, _ in P.found):
            r.ok(f"{where}: handler of signal {n} put back")
    for h, H in P.handlers.items():
        if H.unsafe:
            r.bad(K.Finding(K.floc(H.f), f"{name}: the signal handler calls {', '.join(sorted(set(H.unsafe)))}", "", f"{name}:handler"))
    for w, zero in sorted(P.starts, key=str):
        W = u.m.fns[w]
        W.mod.body(W)
        wn = W.dem.split("(")[0]
        loops = N.column_loops(W)
        if not loops:
            raise compose.AnalysisError(f"{wn}: no loop over the columns found")
        read = {N.glob(i.ops[0]): i for b in W.blocks for i in b.instrs if i.op == "load" and N.glob(i.ops[0]) in zero}
        if not read:
            r.bad(K.Finding(K.floc(W), f"{name}: {wn} does not read the flag the handler of the interrupt signal clears",
                            ", ".join(compose.dname(h) for h in P.handlers), f"{name}:{wn}:read"))
            continue
        for g, i in read.items():
            if i.volatile or getattr(i, "ordering", 0):
                r.ok(f"{wn}: the flag is read anew")
            else:
                r.bad(K.Finding(K.loc(i), f"{name}: {wn} reads the flag as if nothing else could change it (neither atomic nor volatile)", "",
                                f"{name}:{wn}:plain"))
        for l in loops:
            at = K.loc(l.header.instrs[-1])
            if N.keeps_on(l, zero):
                r.bad(K.Finding(at, f"{name}: {wn} goes on with the next column although the flag is cleared", "", f"{name}:{wn}:loop"))
            else:
                r.ok(f"{wn}: loop at {at} ends when the flag is cleared")
                r.note("loops over columns")
            if "(Octave)" in name:
                if N.unpolled(l, zero):
                    r.bad(K.Finding(at, f"{name}: {wn} goes round without looking for an interrupt that Octave has taken", "", f"{name}:{wn}:poll"))
                    continue
                r.ok(f"{wn}: loop at {at} looks for Octave's interrupts")
                bad = N.uncaught(l, zero)
                for i, what in bad:
                    r.bad(K.Finding(K.loc(i), f"{name}: {wn}: an interrupt found by Octave {what}", "", f"{name}:{wn}:caught"))
                if not bad:
                    r.ok(f"{wn}: Octave's interrupt clears the flag")
    return r


def check(tier):
    return parallel("P19", one, list(cases()))
