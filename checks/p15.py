"""Every access lies inside the array it belongs to."""
from sa import access as A, compose, kernels as K, expr as X
from . import bounds
from .common import parallel
LEVEL = "proof"
MIN_OBLIGATIONS = 2000
TECHNIQUE = "symbolic access summaries of every worker and kernel with linear-fact proofs of the bounds (static)"
NOTE = ("Proved for every size, sampling and geometry: each access of the current source, composed over call sites and threads, has its "
        "offset bounded by its array with the conditions and loop ranges it happens under. Trusts clang's front end and inlining, the "
        "arithmetic of counts without overflow (below 2^31), the thread ranges (shown by P10), and the sizes that the interfaces "
        "guarantee (P13, P14). The OpenCL paths, the das_uni and window tools and the response bindings' own argument reading are not covered.")
EXPLAIN = ("Per entry point, the caller's record, the worker and its kernels are composed at IR level into the list of all reads and writes, "
           "each with its guard, loops and symbolic address; arrays have the documented extents, allocations the extents they are made with, "
           "FFT executions and the absorption filter the extents of their plan. One obligation per access and case: 0 <= offset and "
           "offset + width <= extent, from guards and loop tests, by exact rational linear arithmetic with products of non-negative "
           "quantities. An access that cannot be proved is reported as a violation when small sizes are found for which the facts hold "
           "and it lies outside, and as undecided (an error exit) otherwise.")
ASSUME = ["no 64-bit index overflows; counts are below 2^31", "array transducers have at least one element; das has at least one transmitter",
          "allocations succeed", "FFTW reads and writes the whole of the arrays its plan was made for and nothing else"]
JOBS = [("resp", n) for n in bounds.RESP] + [("das", "double"), ("das", "float"), ("run", "fftconv"), ("att", "att")] + \
       [("bind", n) for n in ("conv_p", "fftconv_p", "fftconv_ola", "sum_fftconv", "add_p", "copy_p", "circ_sir", "scirc_sir")]


def job(a):
    r = K.Result("P15")
    doubt = []
    if a[0] == "att":
        js = bounds.absorption()
    else:
        s = bounds.scene(a)
        js = bounds.judges(s)
    for who, J, ext in js:
        for x in J.accesses():
            b = J.extent(x, ext)
            if b == "fixed":
                r.note("fields of objects of fixed layout", 1)
                continue
            what = f"{a[1]} ({who}): {x.kind} at {K.loc(x.eff.ins)}"
            if b is None:
                doubt.append(what + ": array not known: " + X.show_poly(x.word)[:120])
                continue
            f = J.prove(x, *b)
            if f is None:
                r.ok(what)
                continue
            side, g, fs = f
            e = A.example(g, fs)
            if e is None:
                doubt.append(what + f": not decided ({side}): {X.show_poly(g)[:160]}")
                continue
            ins = x.eff.ins
            r.bad(K.Finding(K.loc(ins), f"{a[1]}: {x.kind} {'before the start' if side == 'below' else 'past the end'} of "
                            + (X.show_atom(x.base)[:60] if x.base is not None else "no object"), "for example with " + A.told(g, e),
                            key=f"{a[1]}:{ins.file.split('/')[-1] if ins is not None and ins.file else ''}:{X.show_atom(x.base)[:40] if x.base is not None else ''}:{x.kind}:{side}"))
    r.note("entry points and kernels", 1)
    if doubt and not r.findings:
        raise compose.AnalysisError("\n".join(doubt[:5]))
    return r


def check(tier):
    return parallel("P15", job, JOBS)
