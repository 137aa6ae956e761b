from sa import compose, gsa, kernels as K, octave, octflow, pyflow, expr as X
from .common import parallel
from . import interface as I_

LEVEL = "proof"
MIN_OBLIGATIONS = 500
TECHNIQUE = "value numbering of the compiled Python bindings against a table of the documented interface (static)"
NOTE = ("Same comparison as P13 for the functions of the Python modules, once for arguments of two dimensions and once with one-dimensional "
        "vectors. Trusts clang's front end, sa/ and the model of pybind11 in sa/pyflow.py (what pybind11 itself refuses to convert is "
        "outside the property).")
EXPLAIN = ("Per function: the computing method is reached exactly when the arguments satisfy the documented requirements; each of its "
           "arguments is then the documented element, count, enumerator or pointer; user-given focus and apodization values are in the "
           "buffers it gets; its output is a zeroed nt x No array, which is the value returned; no extent is asked for that an array does "
           "not have; and the Python module binds the documented argument names in order to this function.")
ASSUME = ["pybind11 converts and keeps the arguments as documented", "arrays have at most two dimensions", "no 64-bit index overflows"]
PLAIN = ["Ro", "geom_par", "s_par", "delay", "m_par", "err_level"]
FOCUSED = PLAIN[:-1] + ["foc_met", "focal", "err_level"]
ARRAY = PLAIN[:2] + ["G"] + PLAIN[2:-1] + ["foc_met", "focal", "steer_met", "steer_par", "apod_met", "apod", "win_par", "err_level"]
NAMES = {"plain": PLAIN, "focused": FOCUSED, "array": ARRAY,
         "annular": [x for x in ARRAY if x not in ("geom_par", "steer_met", "steer_par")]}


def one(case):
    fn, flat = case
    r = K.Result("P14")
    u = compose.Unit([(f"python/src/py_{fn}.cc", "py")], keep=("std::unique_ptr", "std::vector", r"^[^(]*\bpybind11::"))
    F = u.one(rf"^py_{fn}\(pybind11")
    dims = {}
    grid = 2 if I_.FUNCS[fn][1] == 'array' else None
    if flat:
        F.mod.body(F)
        n = len(F.params)
        dims = {k: 1 for k in range(1, n) if k != grid}
        if I_.FUNCS[fn][1] == "annular":
            dims[1] = 1
    I = I_.Interface(fn, py=True, flat=tuple(dims))
    O = octflow.Outcome(u, fn, fn, given=I.valid, make=lambda u, fn, base: pyflow.binding(u, fn, base, dims), facts=())
    r2 = I_.judge(r, fn + (" (1-D)" if flat else ""), I, O, K.floc(F), results)
    if not flat:
        names(r, u, fn, F, NAMES[I_.FUNCS[fn][1]])
    extents(r, fn, O)
    return r2


def extents(r, fn, O):
    """no extent is asked for that an array does not have"""
    for e in O.S.effects:
        if e.kind == "extent":
            w, j = e.name
            if w[0] == "arg" and j >= O.h.ndim(w):
                r.bad(K.Finding(K.loc(e.ins), f"{fn}: extent {j} is read of a {O.h.ndim(w)}-dimensional array (argument {w[1] + 1})", "", f"{fn}:extent {w[1]}"))
            else:
                r.ok("extent")


def names(r, u, fn, F, args_, mod=None):
    """the module gives the function its name and the documented argument names in order"""
    init = u.one(rf"^PyInit_{mod or fn}$")
    S = gsa.Summary(init, on_call=compose.numeric_call, tag="E", arrays=True, exits=True)
    held = {}
    found = []
    for e in S.effects:
        if e.kind == "store" and e.val is not None and e.val.q is None:
            held[e.addr] = e.val
        if e.kind != "call":
            continue
        q = compose.short(compose.dname(e.name)).split("::")
        if q[-2:] == ["arg", "arg"]:
            held[e.args[0]] = octave.text(u.m, e.args[1])
        if q[-2:-1] == ["arg"] and q[-1].startswith("operator=") and isinstance(held.get(e.args[1]), str):
            held[e.args[0]] = held[e.args[1]] + "="     # has a default
        if q[-2:-1] == ["module_"] and q[-1].split("<")[0] == "def":
            found.append((e, octave.text(u.m, e.args[1]), held.get(e.args[2]), [held[a] for a in e.args[3:] if isinstance(held.get(a), str)]))
    if not found:
        raise compose.AnalysisError(f"{fn}: the module's definitions are not recognised")
    for e, name, f, args in found:
        good = name != fn or f is not None and str(f) == f"glob({F.name})" and args == args_
        (r.ok(f"{fn}: names") if good else r.bad(K.Finding(K.loc(e.ins), f"{fn}: the Python function has the argument names {args}", "", f"{fn}:names")))
    if not any(name == fn for _, name, _, _ in found):
        r.bad(K.Finding(K.floc(init), f"the module does not define {fn}", "", f"{fn}:def"))


def results(O, I, V, call, h, i, fn, ob, same):
    made = I_.matrix(O, I, V, call, h, i, fn, ob, same)
    if made is None:
        return
    returned(O, made, fn, ob)


def returned(O, made, fn, ob):
    rets = [e for e in O.S.effects if e.kind == "ret"]
    if len(rets) != 1:
        raise compose.AnalysisError(f"{fn}: {len(rets)} returns")
    k = (next(a for a in [X.atom("arg", 0, isint=True)]), 0)
    hs = O.st.held(k, rets[0], O.st.sub(rets[0].cond))
    ob(bool(hs) and all(w == ("new", made) for _, w in hs), "returned array", "the array returned is not the computed one", str(hs)[:200])


def check(tier):
    return parallel("P14", one, [(f, d) for f in sorted(I_.FUNCS) for d in (False, True)])
