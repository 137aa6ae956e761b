import multiprocessing
import sys
ASSUME_KERNEL = [
    "floating-point arithmetic is compared as real arithmetic: rounding and the order of additions are not part of the property",
    "no 64-bit index overflows; sizes are non-negative",
    "output buffers are zeroed by the caller (checked separately)",
    "distinct pointer parameters do not alias",
]
EXPLAIN_KERNEL = ("Each implementation (entry point, per-thread worker, serial kernels and helpers, inlined at IR level from the current "
                  "source) and its plainly written reference are reduced by value numbering over gated SSA to a canonical summary: "
                  "every store/accumulation with its guard, address, value and loop nest as hash-consed normal forms. "
                  "One obligation per loop nest: the two normal forms are the same object.")
TECH_KERNEL = "value numbering of gated SSA, compared with a reference specification (static)"
NOTE_KERNEL = ("Exact over real arithmetic for every input: the implementation's normal form must be identical to the reference's. "
               "Trusts clang's front end and SROA/inlining, the canonicaliser in sa/, and the reference in spec/; rounding, "
               "integer overflow and pointer aliasing between parameters are outside the model.")


def _run(a):
    sys.setrecursionlimit(20000)
    f, x = a
    try:
        return f(x)
    except Exception as e:      # carried to the parent with its text
        import traceback
        return e, traceback.format_exc()


def parallel(name, f, xs):
    """results of f over xs, one process each"""
    from sa import kernels as K
    r = K.Result(name)
    with multiprocessing.Pool(min(8, len(xs))) as p:
        for x in p.map(_run, [(f, x) for x in xs], chunksize=1):
            if isinstance(x, tuple):
                print(x[1])
                raise x[0]
            r.add(x)
    return r
