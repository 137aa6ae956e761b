"""Comparison of an implementation's canonical effect summary with that of its reference specification."""
import os
from fractions import Fraction as Q
from . import build, llvm, gsa, compose, expr as X
from .compose import AnalysisError, short, dname
from .expr import TRUE, FALSE, UNDEF, BOT, L, at, atom, ite, AND, OR, NOT, add, sub, mul, num


class Finding:
    """one violated obligation"""

    def __init__(self, where, what, detail="", key=None):
        self.where, self.what, self.detail = where, what, detail
        self.key = key or what

    def __str__(self):
        return f"{self.where}: {self.what}" + (f"\n    {self.detail}" if self.detail else "")


def loc(i):
    if i is None:
        return "?"
    f = i.file or ""
    if f.startswith(build.REPO + "/"):
        f = f[len(build.REPO) + 1:]
    return f"{f}:{i.line}"


def floc(F):
    f = F.file or ""
    if f.startswith(build.REPO + "/"):
        f = f[len(build.REPO) + 1:]
    return f"{f}:{F.line} {short(F.dem)}"


def diff(a, b, path=()):
    """first point where two diagrams differ: (path of tests, leaf of a, leaf of b)"""
    if a is b:
        return None
    if a.q is None and b.q is None:
        return path, a.leaf, b.leaf
    q = None
    for n in (a, b):
        if n.q is not None and (q is None or n.q.key < q.key):
            q = n.q
    cuts = ()
    for n in (a, b):
        if n.q is q:
            cuts = X.merge_cuts(cuts, n.cuts)
    for j, lo in enumerate((None,) + cuts):
        hi = cuts[j] if j < len(cuts) else None
        r = diff(X.pick(a, q, lo), X.pick(b, q, lo), path + ((q, lo, hi),))
        if r:
            return r
    return None


def show_diff(a, b):
    r = diff(a, b)
    if r is None:
        return "equal"
    path, x, y = r
    conds = []
    for q, lo, hi in path:
        s = X.show_poly(q)
        if len(s) > 160:
            s = s[:160] + "..."
        if lo is not None:
            s = f"{lo[0]} {'<=' if lo[1] == 0 else '<'} " + s
        if hi is not None:
            s += f" {'<' if hi[1] == 0 else '<='} {hi[0]}"
        conds.append(s)
    f = lambda p: "undefined" if p is BOT else X.show_poly(p)[:900]
    return f"where {' and '.join(conds) or 'always'}: computed {f(x)} | specified {f(y)}"


def is_output(n):
    b, _ = gsa.base_of(next(iter(X.leaves(n, set()))))
    return b is not None and b.kind == "arg"


def kernel_token(e):
    """observable effects of a response kernel"""
    if e.kind in ("acc", "store"):
        if not is_output(e.addr):
            return None
        return [(e.kind, [e.addr], e.val)] if e.kind == "acc" else [(e.kind, [e.addr, e.val], X.TRUE)]
    if e.kind == "oob":
        return [("oob", [], X.TRUE)]
    if e.kind in ("memset", "memcpy"):
        return [(e.kind, [e.addr] + list(e.args), X.TRUE)] if is_output(e.addr) else None
    if e.kind == "call":
        d = short(dname(e.name))
        if d == "Attenuation::att":
            return [("att", [e.args[0], e.args[3], e.args[4], e.args[5], e.args[6]], X.TRUE)]
        if d == "spec_att":
            o = X.apply(lambda a, b, c: at(atom("obj", "Attenuation", (L(a), L(b), L(c)), isint=True)),
                        e.args[0], e.args[1], e.args[2])
            return [("att", [o] + e.args[3:7], X.TRUE)]
        if d == "spec_oob":
            return [("oob", [], X.TRUE)]
    return None


def drop_clears(effects):
    """The responses are accumulated into buffers that every caller hands over zeroed, so zeroing the samples of a point again
    before anything is accumulated into them is neutral.  A clearing that comes later, or sits inside the accumulation
    loops, stays."""
    first = min([e.seq for e in effects if e.kind in ("acc", "call", "oob") and len(e.loops) >= 2], default=None)
    out = []
    for e in effects:
        if e.kind == "store" and e.val is FALSE and len(e.loops) == 2 and is_output(e.addr) \
                and (first is None or e.seq < first or not shares_iteration(e, effects)):
            continue
        out.append(e)
    return out


def shares_iteration(e, effects):
    """does some accumulation textually precede the clearing inside the same iteration of the outer loop"""
    return any(a.kind in ("acc", "call") and a.seq < e.seq and a.loops and a.loops[0] is e.loops[0]
               and compatible(a.cond, e.cond) for a in effects if a.kind == "acc" or
               (a.kind == "call" and short(dname(a.name)) in ("Attenuation::att", "spec_att")))


def compatible(a, b):
    return AND(a, b) is not FALSE


def nonneg(n):
    return all(p is not BOT and all(c > 0 and all(a.dom is not None and a.dom[0] is not None and a.dom[0] >= 0 for a, _ in m)
                                    for m, c in p.t) for p in X.leaves(n, set()))


def hoist(effects):
    """an accumulation into a location that does not depend on the innermost loop is one accumulation of the sum"""
    out = []
    for e in effects:
        while e.kind == "acc" and e.loops and e.loops[-1].kind == "loop":
            k = atom("k", e.loops[-1], isint=True, dom=(0, None))
            if k.key in X.atoms_of(e.addr):
                break
            n = gsa.Effect()
            for f in gsa.Effect.__slots__:
                setattr(n, f, getattr(e, f))
            d = ite(e.cond, e.val, FALSE)
            tc = e.tcs[-1]
            s_ = X.mksum(tc, k, X.strip_bot(d))
            if not nonneg(tc):
                s_ = ite(X.cmp("le", tc, FALSE, True), FALSE, s_)
            n.val = s_
            n.cond = TRUE
            n.loops, n.tcs, n.uids = e.loops[:-1], e.tcs[:-1], e.uids[:-1]
            e = n
        out.append(e)
    # merge with the initialising store
    res = []
    for e in out:
        if e.kind == "acc":
            for j in range(len(res) - 1, -1, -1):
                p = res[j]
                if p.kind in ("store", "acc") and p.addr is e.addr and p.loops == e.loops:
                    if p.kind == "store" and p.cond is TRUE and p.addr is e.addr:
                        n = gsa.Effect()
                        for f in gsa.Effect.__slots__:
                            setattr(n, f, getattr(p, f))
                        n.val = add(p.val, ite(e.cond, e.val, FALSE))
                        res[j] = n
                        e = None
                    break
        elif e.kind == "store" and e.cond is TRUE:
            # the last store to a location within an iteration is the one that counts
            res = [p for p in res if not (p.kind in ("store", "acc") and p.addr is e.addr and p.loops == e.loops)]
        if e is not None:
            res.append(e)
    return res


class Result:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.notes = {}
        self.samples = []

    def add(self, other):
        self.findings += other.findings
        self.obligations += other.obligations
        self.discharged += other.discharged
        self.samples += other.samples
        for k, v in other.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v if isinstance(v, (int, float)) else v

    def ok(self, sample=None, n=1):
        self.obligations += n
        self.discharged += n
        if sample:
            self.samples.append(sample)

    def bad(self, finding, n=1):
        self.obligations += n
        self.findings.append(finding)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


_specs = {}


def spec_unit(name):
    u = _specs.get(name)
    if u is None:
        u = _specs[name] = compose.Unit([(os.path.join(build.VERIF, "spec", name + ".cc"), "spec")])
    return u


def spec_summary(spec, fn, params, on_call=compose.numeric_call):
    S = spec_unit(spec).one("^" + fn + r"\b")
    S.mod.body(S)
    return gsa.Summary(S, params=params, on_call=on_call, tag="S")


def compare(res, F, impl, ref, token=kernel_token, clears=True, hoisting=True, label=""):
    """every loop nest of the two summaries must carry the same observable effects"""
    if clears:
        impl, ref = drop_clears(impl), drop_clears(ref)
    if hoisting:
        impl, ref = hoist(impl), hoist(ref)
    A, wa, _ = compose.reduce_effects(impl, token)
    B, wb, _ = compose.reduce_effects(ref, token)
    if not B:
        raise AnalysisError(f"reference for {F.dem} has no effect")
    if not A:
        raise AnalysisError(f"no observable effect found in {F.dem}")
    for k in A:
        res.note("effect sites", len(wa[k]))
    for k in list(dict.fromkeys(list(A) + list(B))):
        a, b = A.get(k, FALSE), B.get(k, FALSE)
        if a is b:
            res.ok(f"{floc(F)}{label}: {len(wa[k])} effect sites at loop depth {len(k)} equal the reference "
                   f"(normal form {a.key[5:17]})")
            continue
        w = wa.get(k) or [e for es in wa.values() for e in es]
        sites = sorted({loc(e.ins) for e in w if e.ins is not None})
        if k not in A:
            what = f"the reference has an effect in a loop nest the code does not have ({', '.join(map(show_loop, k))})"
        elif k not in B:
            what = f"effect in a loop nest the reference does not have ({', '.join(map(show_loop, k))})"
        else:
            what = "computed effect differs from the reference"
        res.bad(Finding(f"{floc(F)}{label} ({', '.join(sites[:4])})", what, show_diff(a, b)))
    return res


def show_loop(a):
    c = a.args[1]
    return "until " + " or ".join(X.show(n)[:120] for _, n in c)


def threaded(res, srcs, entry, spec, fn, keep=("^Attenuation::",), flavour="oct", this=None, **kw):
    """a threaded entry point of the library against its reference"""
    u = compose.Unit([(s, flavour) for s in srcs], keep=keep)
    F = u.one(entry)
    T = compose.Threaded(u, F)
    impl = T.compose()
    if T.start is None:
        raise AnalysisError(f"range of {T.worker.dem} not recognised")
    ps = [at(atom("sym", "start", isint=True)), at(atom("sym", "stop", isint=True))] + compose.entry_params(F, True)[1:]
    ref = spec_summary(spec, fn, ps).effects
    res.note("functions analysed", 1)
    res.note("programs compared", 1)
    return compare(res, T.worker, impl, ref, **kw)


def driven(res, driver, srcs, fn, spec, specfn, fixed=(), mins=(), flavour="oct", keep=("^Attenuation::",), single=False, label="",
           out=None, size=8, **kw):
    """a threaded class method, called from spec/<driver>.cc, against its reference: effect by effect, or, where the code is
    organised differently, by the content of output argument `out` (one value per iteration of the threaded range)"""
    from . import arrays
    first = Result(res.name)
    gsa.EXACT32[0] = single
    try:
        try:
            driven_tokens(first, driver, srcs, fn, spec, specfn, fixed, mins, flavour, keep, label, **kw)
        except (AnalysisError, X.TooBig, gsa.Unsupported) as e:
            if out is None:
                raise
            first = e
        if isinstance(first, Result) and (not first.findings or out is None):
            res.add(first)
            return
        second = Result(res.name)
        try:
            driven_arrays(second, driver, srcs, fn, spec, specfn, fixed, mins, flavour, keep, label, out, size)
        except (arrays.Unresolved, X.TooBig, AnalysisError, gsa.Unsupported) as e:
            if isinstance(first, Result):
                res.add(first)
                return
            raise AnalysisError(f"{fn}: {first}; {e}")
        res.add(second)
    finally:
        gsa.EXACT32[0] = False


def driver_unit(driver, srcs, flavour, keep, fn, fixed, mins, allstd=False, allmins=False):
    u = compose.Unit([(os.path.join(build.VERIF, "spec", driver + ".cc"), flavour)] + [(s, flavour) for s in srcs], keep=keep,
                     allstd=allstd)
    F = u.one("^" + fn + r"\b")
    ps = compose.entry_params(F, False, mins=dict(mins))
    for k, v in dict(fixed).items():
        ps[k] = v if isinstance(v, X.Node) else num(v)
    return u, F, ps


RANGE = [at(atom("sym", "start", isint=True)), at(atom("sym", "stop", isint=True))]


def driven_tokens(res, driver, srcs, fn, spec, specfn, fixed, mins, flavour, keep, label, **kw):
    u, F, ps = driver_unit(driver, srcs, flavour, keep, fn, fixed, mins)
    T = compose.Threaded(u, F, method=False, params=ps, resolve=True)
    impl = T.compose()
    if T.start is None:
        raise AnalysisError(f"range of {T.worker.dem} not recognised")
    S = spec_unit(spec).one("^" + specfn + r"\b")
    S.mod.body(S)
    ref = spec_summary(spec, specfn, (RANGE + ps)[:len(S.params)]).effects
    res.note("functions analysed", 1)
    res.note("programs compared", 1)
    compare(res, T.worker, impl, ref, label=label, **kw)


def driven_arrays(res, driver, srcs, fn, spec, specfn, fixed, mins, flavour, keep, label, out, size, place=None, model=None):
    """place(params) -> (facts, [(output argument, byte offset)]); by default one value per iteration, and the reports"""
    u, F, ps = driver_unit(driver, srcs, flavour, keep, fn, fixed, mins, allstd=True)
    T = compose.Threaded(u, F, method=False, params=ps, resolve=True, arrays=True)
    impl = T.compose()
    if T.start is None:
        raise AnalysisError(f"range of {T.worker.dem} not recognised")
    S = spec_unit(spec).one("^" + specfn + r"\b")
    S.mod.body(S)
    R = gsa.Summary(S, params=(RANGE + ps)[:len(S.params)], on_call=compose.array_call, tag="S", arrays=True)
    K = atom("sym", "K", isint=True, dom=(0, None))
    st, sp = RANGE[0].leaf, RANGE[1].leaf
    facts = [X.padd(X.padd(X.padd(sp, st, -1), X.patom(K), -1), X.ONE, -1)]
    if place is None:
        outs = [(ps[out].leaf.t[0][0][0][0], X.pscale(X.padd(st, X.patom(K)), Q(size))),
                (gsa.mark_ptr(atom("sym", "reports", isint=True)), X.pscale(X.patom(K), Q(8)))]
    else:
        more, outs = place(ps, X.padd(st, X.patom(K)))
        facts = facts + more
        outs = [(ps[o].leaf.t[0][0][0][0], off) for o, off in outs]
    kw = {"model": model} if model else {}
    A = contents(impl, T.W.heap, facts, outs, **kw)
    B = contents(R.effects, R.heap, facts, outs, **kw)
    res.note("functions analysed", 1)
    res.note("programs compared", 1)
    res.note("effect sites", len(impl))
    for name, a, b in zip(("output", "out-of-range reports"), A, B):
        if a is not b:
            a, b = settle(a, b, facts)
        if a is b:
            res.ok(f"{floc(T.worker)}{label}: {name} equals the reference (normal form {a.key[5:17]})")
        else:
            res.bad(Finding(floc(T.worker) + label, f"{name} differs from the reference", show_diff(a, b)))


def array_threaded(res, srcs, entry, spec, fn, out_arg, nt_arg, keep=("^Attenuation::",), flavour="oct", mins=()):
    """threaded entry point against its reference, compared by the content both leave in the output matrix"""
    u = compose.Unit([(s, flavour) for s in srcs], keep=keep, allstd=True)
    F = u.one(entry)
    mins = dict(mins)
    T = compose.Threaded(u, F, arrays=True, mins=mins)
    impl = T.compose()
    if T.start is None:
        raise AnalysisError(f"range of {T.worker.dem} not recognised")
    ps = [at(atom("sym", "start", isint=True)), at(atom("sym", "stop", isint=True))] + compose.entry_params(F, True, mins=mins)[1:]
    S = spec_unit(spec).one("^" + fn + r"\b")
    S.mod.body(S)
    R = gsa.Summary(S, params=ps, on_call=compose.array_call, tag="S", arrays=True)
    arg = compose.entry_params(F, True, mins=mins)[1:]
    facts, x, k = column(arg[nt_arg], out_arg)
    outs = [(arg[out_arg].leaf.t[0][0][0][0], x), (gsa.mark_ptr(atom("sym", "reports", isint=True)), X.pscale(X.patom(k), Q(8)))]
    init = lambda b: "zero" if b is outs[0][0] else "param"       # callers hand over a cleared matrix
    A = contents(impl, T.W.heap, facts, outs, init=init)
    B = contents(R.effects, R.heap, facts, outs, init=init)
    res.note("functions analysed", 1)
    res.note("programs compared", 1)
    res.note("effect sites", len(impl))
    for name, a, b in zip(("output response", "out-of-range reports"), A, B):
        if a is b:
            res.ok(f"{floc(T.worker)}: {name} equals the reference (normal form {a.key[5:17]})")
        else:
            res.bad(Finding(floc(T.worker), f"{name} differs from the reference", show_diff(a, b)))
    return res


def kernel(res, srcs, entry, spec, fn, h, nt, mins=(), token=True, flavour="oct"):
    """effect-by-effect comparison first; where the code is organised differently, comparison of the resulting arrays"""
    first = None
    if token:
        first = Result(res.name)
        try:
            threaded(first, srcs, entry, spec, fn, flavour=flavour)
            if not first.findings:
                res.add(first)
                return
        except (AnalysisError, X.TooBig) as e:
            first = e
    from . import arrays
    second = Result(res.name)
    try:
        array_threaded(second, srcs, entry, spec, fn, h, nt, mins=mins, flavour=flavour)
    except (arrays.Unresolved, X.TooBig, AnalysisError) as e:
        if isinstance(first, Result):
            res.add(first)
            return
        if first is not None:
            raise first
        raise AnalysisError(f"{entry}: {e}")
    res.add(second)


def column(nt, out_arg):
    """generic element J of the generic column K of the columns start..stop"""
    K = atom("sym", "K", isint=True, dom=(0, None))
    J = atom("sym", "J", isint=True, dom=(0, None))
    st, sp = X.patom(atom("sym", "start", isint=True)), X.patom(atom("sym", "stop", isint=True))
    n = nt.leaf
    facts = [X.padd(X.padd(n, X.patom(J), -1), X.ONE, -1), X.padd(X.padd(X.padd(sp, st, -1), X.patom(K), -1), X.ONE, -1)]
    x = X.pscale(X.padd(X.pmul(n, X.padd(st, X.patom(K))), X.patom(J)), Q(8))
    return facts, x, K


def contents(effects, heap, facts, outs, model=None, init=None):
    """what the effects leave at the given places"""
    from . import arrays

    def ini(b):
        if b.kind == "heap":
            return heap[b.args[1]]
        if b.kind == "alloca":
            return "uninit"
        if b.kind == "sym" and b.args[0] == "reports":
            return "zero"
        if init is not None:
            return init(b)
        return "param"
    E = arrays.Engine(effects, init=ini, model=model or arrays.kernel_model, facts=facts)
    out = []
    pr = arrays.Pruner(facts)
    for b, x in outs:
        v = E.read(arrays.chain(E, E.state, b), x, "double", {})
        out.append(pr.node(X.strip_bot(v)))
    return out


def settle(a, b, facts):
    """a second comparison, with the tests decided by their surroundings dropped"""
    from .facts import Deep, derive
    fs = tuple(g for f in facts for g in derive(f))
    try:
        x, y = Deep().node(a, fs), Deep().node(b, fs)
        if x is not y:
            x, y = X.canon(x), X.canon(y)
        if x is not y:
            D = Deep(edges=True)
            x, y = X.canon(D.node(a, fs)), X.canon(D.node(b, fs))
    except X.TooBig:
        return a, b
    return x, y


def drive(res, driver, srcs, fn, spec, specfn, place, mins=(), fixed=(), model=None, ty="double", flavour="oct", what="result",
          keep=(), hook=None, init=None, on_call=None, same=None, label="", defs=(), inline_workers=False):
    """a use of library classes written out in spec/<driver>.cc, analysed with the library's sources, against a reference.

    place(params) -> (facts, [(output argument, byte offset)])"""
    from . import arrays
    d = os.path.join(build.VERIF, "spec", driver + ".cc")
    u = compose.Unit([(d, flavour, tuple(defs)) if defs else (d, flavour)] + [(s, flavour) for s in srcs], keep=keep, allstd=True,
                     inline_workers=inline_workers)
    F = u.one("^" + fn + r"\b")
    F.mod.body(F)
    ps = compose.entry_params(F, False, mins=dict(mins))
    for k, v in dict(fixed).items():
        ps[k] = v if isinstance(v, X.Node) else num(v)
    impl = gsa.Summary(F, params=ps, on_call=on_call or compose.array_call, tag="E", arrays=True)
    S = spec_unit(spec).one("^" + specfn + r"\b")
    S.mod.body(S)
    ref = gsa.Summary(S, params=ps[:len(S.params)], on_call=compose.array_call, tag="S", arrays=True)
    facts, outs = place(ps)
    outs = [(ps[o].leaf.t[0][0][0][0], off) for o, off in outs]
    model = model or arrays.fft_model
    A = contents(impl.effects, impl.heap, facts, outs, model=model, init=init)
    B = contents(ref.effects, ref.heap, facts, outs, model=model, init=init)
    res.note("programs compared", 1)
    res.note("effect sites", len(impl.effects))
    G = library_site(u, srcs)
    for n, (a, b) in enumerate(zip(A, B)):
        if hook:
            a, b = hook(a), hook(b)
        if a is not b:
            a, b = settle(a, b, facts)
        if a is b:
            res.ok(f"{G}: {what}{label} equals the reference (normal form {a.key[5:17]})")
        else:
            res.bad(Finding(G, f"{what}{label} differs from the reference", show_diff(a, b)))
    return A, B


def library_site(u, srcs):
    return ", ".join(srcs)
