"""The OpenCL kernels compute what the CPU code computes."""
from fractions import Fraction as Q
from sa import access as A_, compose, gsa, kernels as K, octave, expr as X
from .common import parallel

LEVEL = "translation_validation"
MIN_OBLIGATIONS = 400
TECHNIQUE = "symbolic summaries of the compiled OpenCL kernels compared with the reference of the CPU code (static)"
NOTE = ("The kernels are compiled to IR with clang's OpenCL front end, each is reduced to the content it leaves in its output, and this must be the "
        "normal form of the reference the CPU code is verified against. Exact for every size and geometry up to rounding; single-precision "
        "operations in the kernels for double precision are told apart. Of the host code: arguments, transfers, buffers, choice of the kernel and number "
        "of work items; the work of OpenCL itself and failures of its functions are not covered.")
EXPLAIN = ("Per kernel: the value of every element it may write, in terms of its arguments and number, equals the reference; nothing else is written; "
           "two work items write different elements. Every access lies in the array given. Per host function and imaging type: the kernel started, every "
           "argument, the size of every buffer and transfer, the number of work items and no constraint on it from work groups.")
ASSUME = ["functions of the OpenCL library compute the function they name", "arithmetic is exact (as for the CPU code)", "no integer overflows",
          "the global size is the number of observation points"]
GID = X.atom("sym", "get_global_id", isint=True, dom=(0, 2**31 - 1))
J = X.atom("sym", "J", isint=True, dom=(0, None))
# kernel: (first word of the reference, output argument, argument with the number of samples or None)
DAS = {"das_saft": (9, None), "das_tfm": (11, None), "das_rca_coltx": (11, None), "das_rca_rowtx": (11, None)}
KERNELS = {"das_double.cl": DAS, "das_float.cl": DAS, "dreamrect.cl": {"dreamrect": (11, 7)}, "dreamcirc.cl": {"dreamcirc": (10, 6)},
           "rect_sir.cl": {"rect_sir": (9, 5)}}


def one(a):
    src, name = a
    out, nt = KERNELS[src][name]
    single = src == "das_float.cl"
    r = K.Result("P09")
    u = compose.Unit([("opencl/" + src, "cl")], allstd=True)
    F = u.one("^" + name + r"\b")
    F.mod.body(F)
    where = K.floc(F)
    size = 4 if single else 8
    mins = {k: 1 for k, p in enumerate(F.params) if p.ty.kind == "int"}
    ps = compose.entry_params(F, False, mins=mins)
    gsa.EXACT32[0] = single
    try:
        impl = gsa.Summary(F, params=ps, on_call=compose.array_call, tag="E", arrays=True)
        S = K.spec_unit("cl").one("^spec_cl_" + name + ("_float" if single else "_double" if "das" in name else "") + r"\b")
        S.mod.body(S)
        if len(S.params) != len(F.params) + 1:
            raise compose.AnalysisError(f"{name}: {len(F.params)} parameters, expected {len(S.params) - 1}")
        ref = gsa.Summary(S, params=ps + [X.at(GID)], on_call=compose.array_call, tag="S", arrays=True)
        g = X.patom(GID)
        if nt is None:
            facts, place = [], X.pscale(g, Q(size))
        else:
            n = ps[nt].leaf
            facts = [X.padd(X.padd(n, X.patom(J), -1), X.ONE, -1)]
            place = X.pscale(X.padd(X.pmul(g, n), X.patom(J)), Q(size))
        outs = [(ps[out].leaf.t[0][0][0][0], place)]
        A = K.contents(impl.effects, impl.heap, facts, outs)
        B = K.contents(ref.effects, ref.heap, facts, outs)
    finally:
        gsa.EXACT32[0] = False
    a, b = A[0], B[0]
    if a is not b:
        a, b = K.settle(a, b, facts)
    r.note("kernels")
    if a is b:
        r.ok(f"{where}: output equals the reference (normal form {a.key[5:17]})")
    else:
        r.bad(K.Finding(where, "the output differs from what the CPU computes", K.show_diff(a, b), f"{src}:{name}:output"))
    bounds(r, F, name, single, out, nt, ps)
    return r


def bounds(r, F, name, single, out, nt, ps):
    """every access lies in its array, every write in the work item's own element or column"""
    size = 4 if single else 8
    two = "das" in name and name != "das_saft"
    no = {"das_saft": 5, "rect_sir": 1, "dreamrect": 1, "dreamcirc": 1}.get(name, 7)
    behind = X.at(X.atom("sym", "behind", isint=True, dom=(0, None)))
    g = X.at(GID)
    No = X.add(X.add(g, behind), X.TRUE)
    ps = list(ps)
    ps[no] = No
    S = gsa.Summary(F, params=ps, on_call=A_.allocating(compose.array_call), on_read=A_.on_read, tag="E", arrays=True)
    n, b = X.num(size), X.num(3 * size)
    ext = {}
    put = lambda k, lo, hi: ext.__setitem__(ps[k].leaf.t[0][0][0][0], (lo, hi))
    put(no - 1, X.num(0), X.mul(b, No))
    strides = {}
    if nt is None:
        put(0, X.num(0), X.mul(n, X.mul(ps[1], X.mul(ps[3], ps[5]) if two else ps[3])))
        for k in (2, 4) if two else (2,):
            put(k, X.num(0), X.mul(b, ps[k + 1]))
        put(out, X.mul(n, g), X.mul(n, X.add(g, X.TRUE)))
    else:
        put(out, X.mul(n, X.mul(ps[nt], g)), X.mul(n, X.mul(ps[nt], X.add(g, X.TRUE))))
    J_ = A_.Judge(S.effects, [])
    J_.strides = strides
    doubt = []
    for x in J_.accesses():
        e = J_.extent(x, ext)
        if e == "fixed":
            continue
        where = K.loc(x.eff.ins)
        what = f"{name}: {x.kind} at {where}"
        if e is None:
            doubt.append(what + ": array not known: " + X.show_poly(x.word)[:120])
            continue
        f = J_.prove(x, *e)
        if f is None:
            r.ok(what)
            r.note(x.kind + "s in their arrays")
            continue
        side, q, fs = f
        w = A_.example(q, fs)
        if w is None:
            doubt.append(what + f": not decided ({side}): {X.show_poly(q)[:160]}")
            continue
        r.bad(K.Finding(where, f"{name}: {x.kind} {'before the start' if side == 'below' else 'past the end'} of "
                        + ("its own part of " if x.base is ps[out].leaf.t[0][0][0][0] else "") + X.show_atom(x.base)[:60],
                        "for example with " + A_.told(q, w), f"{name}:{x.kind}:{side}:{X.show_atom(x.base)[:40]}"))
    if doubt and not r.findings:
        raise compose.AnalysisError("\n".join(doubt[:5]))


HOST = ("Y", "len", "gt", "Nt", "gr", "Nr", "Ro", "No", "dt", "delay", "cp", "Im")
ARGS = {"Y": 0, "Ro": 1, "gt": 2, "gr": 3, "dt": 4, "delay": 5, "cp": 6, "Im": 7}
MEMBERS = {"len": 1, "No": 2, "Nt": 3, "Nr": 4}


def members(u, ty):
    """where the constructor keeps its parameters"""
    C = u.one(rf"DAS<{ty}>::DAS\(DASType")
    C.mod.body(C)
    this = X.atom("sym", "this", isint=True)
    member = {}
    S = gsa.Summary(C, params=compose.entry_params(C, True), on_call=compose.numeric_call, tag="C")
    for e in S.effects:
        if e.kind == "store" and e.val.q is None and e.addr.q is None and gsa.base_of(e.addr.leaf)[0] is this:
            for k in range(5):
                if [a for a in e.val.leaf.atoms() if a.kind == "arg" and a.args[0] == k and X.patom(a) is e.val.leaf]:
                    member[k] = X.at(X.atom("ld", e.addr.leaf, str(e.size), (), isint=True))
    if any(k not in member for k in range(5)):
        raise compose.AnalysisError(f"DAS<{ty}>: parameters kept by the constructor not found")
    return member


def kept(ty):
    """also the members with the buffer of each array and its length"""
    u = compose.Unit([("opencl/cl_das.cc", "octcl")], keep=(r"^[^(]*\bcl::", "init_opencl"), allstd=True)
    F = u.one(rf"DAS<{ty}>::cl_das\(")
    F.mod.body(F)
    ps = compose.entry_params(F, True)
    S = gsa.Summary(F, params=ps, on_call=compose.array_call, tag="E", arrays=True)
    slots = {}
    for e in S.effects:
        if e.kind == "call" and compose.short(compose.dname(e.name)).split("::")[-1] in ("enqueueWriteBuffer", "enqueueReadBuffer"):
            for role, k in ARGS.items():
                if e.args[5] is ps[1:][k]:
                    a = [a for a in X.atomset(e.args[4]) if a.kind == "ld"]
                    if len(a) != 1 or X.at(a[0]) is not e.args[4]:
                        raise compose.AnalysisError(f"DAS<{ty}>::cl_das: the length transferred with {role} is not a member")
                    slots[role] = (e.args[1], e.args[4])
    if set(slots) != {"Y", "Ro", "gt", "gr", "Im"}:
        raise compose.AnalysisError(f"DAS<{ty}>::cl_das: arrays transferred: {', '.join(slots)}")
    return members(u, ty), slots


def unrolled(e):
    """the calls of a loop with a known number of rounds, one by one"""
    if not e.loops:
        return [e]
    tc = e.tcs[0].leaf.const() if e.tcs[0].q is None and e.tcs[0].leaf is not X.BOT else None
    if tc is None or tc > 64 or len(e.loops) != 1:
        raise compose.AnalysisError("call of OpenCL in a loop with an unknown number of rounds")
    k = X.atom("k", e.loops[0], isint=True, dom=(0, None))
    out = []
    for j in range(int(tc)):
        T = X.Subst({k: X.num(j)})
        n = gsa.Effect()
        for f in gsa.Effect.__slots__:
            setattr(n, f, getattr(e, f, None))
        n.cond, n.args, n.loops, n.tcs, n.seq = T.node(e.cond), [T.node(x) for x in e.args], (), (), e.seq + Q(j, 1000)
        out.append(n)
    return out


def host(ty):
    """cl_das: what the kernel is given, the data it works on, and how many work items there are"""
    r = K.Result("P09")
    u = compose.Unit([("opencl/cl_das.cc", "octcl")], keep=(r"^[^(]*\bcl::", "init_opencl"), allstd=True)
    F = u.one(rf"DAS<{ty}>::cl_das\(")
    F.mod.body(F)
    where = K.floc(F)
    member = members(u, ty)
    ps = compose.entry_params(F, True)
    S = gsa.Summary(F, params=ps, on_call=compose.array_call, tag="E", arrays=True)
    pos = X.Subst({m.leaf.t[0][0][0][0]: X.at(X.atom("sym", n, isint=True, dom=(0, 2**31 - 1)))
                   for k, m in member.items() for n in [("type", "len", "No", "Nt", "Nr")[k]]})
    wide = lambda x: X.at(X.atom("sym", x, isint=True, dom=(0, 2**31 - 1)))
    calls = [x for e in S.effects if e.kind == "call" for x in (unrolled(e) if "cl::" in compose.dname(e.name) else [e])]
    named = lambda n: [e for e in calls if compose.short(compose.dname(e.name)).split("::")[-1].split("<")[0] == n]
    nr = wide("Nr")
    cases = {"receivers": X.cmp("ge", nr, X.num(1), True), "no receivers": X.cmp("le", nr, X.num(0), True)}
    ob = lambda good, key, what, detail="": (r.ok(f"{where}: {key}") if good else r.bad(K.Finding(where, f"das<{ty}>: {what}", detail, f"host:{ty}:{key}")))

    def under(c, n):
        return X.strip_bot(X.ite(c, pos.node(n), X.UNDEF))

    def held(e, p):
        """what is at p when e happens"""
        for s in sorted(S.effects, key=lambda s: -s.seq):
            if s.kind == "store" and s.seq < e.seq and s.addr is p:
                return s.val
        return None
    starts = named("enqueueNDRangeKernel")
    if len(starts) != 1:
        raise compose.AnalysisError(f"{len(starts)} kernel launches in DAS<{ty}>::cl_das")
    launch = starts[0]
    for cname, c in cases.items():
        order = HOST if cname == "receivers" else tuple(x for x in HOST if x not in ("gr", "Nr"))
        given = {}
        for e in named("setArg"):
            if under(c, e.cond) is X.strip_bot(X.ite(c, X.TRUE, X.UNDEF)) and e.seq < launch.seq:
                k = under(c, e.args[1])
                k = k.leaf.const() if k.q is None and k.leaf is not X.BOT else [p for p in X.leaves(k, set()) if p is not X.BOT]
                if isinstance(k, list):
                    k = k[0].const() if len(k) == 1 else None
                if k is None:
                    raise compose.AnalysisError("number of a kernel argument not known")
                given[int(k)] = e
        extra = sorted(set(given) - set(range(len(order))))
        ob(not extra, f"{cname}: arguments", f"the kernel is given arguments it does not have ({extra})")
        for k, role in enumerate(order):
            e = given.get(k)
            if e is None:
                ob(False, f"{cname}: {role}", f"argument {k} of the kernel ({role}) is not set")
                continue
            if role in ("Y", "Ro", "gt", "gr"):
                src = ps[1:][ARGS[role]]
                w = [x for x in named("enqueueWriteBuffer") if x.args[1] is e.args[2] and x.seq < launch.seq]
                ob(len(w) == 1 and w[0].args[5] is src and w[0].args[3] is X.FALSE and w[0].args[2] is X.TRUE and under(c, w[0].cond) is under(c, X.TRUE),
                   f"{cname}: {role}", f"argument {k} of the kernel is not the buffer with {role}")
            elif role == "Im":
                w = [x for x in named("enqueueReadBuffer") if x.seq > launch.seq]
                ob(len(w) == 1 and w[0].args[1] is e.args[2] and w[0].args[5] is ps[1:][ARGS["Im"]] and w[0].args[2] is X.TRUE and under(c, w[0].cond) is under(c, X.TRUE),
                   f"{cname}: Im", "the image read back is not what the kernel wrote")
            else:
                v = held(e, e.args[2])
                want = wide(role) if role in MEMBERS else ps[1:][ARGS[role]]
                v = X.BOT if v is None else under(c, v)
                ob(v is under(c, want), f"{cname}: {role}", f"argument {k} of the kernel is not {role}", X.show(v)[:200] if isinstance(v, X.Node) else "")
    ranges = {}
    for e in named("NDRange"):
        ranges[e.args[0]] = e.args[1:]
    glob, loc = launch.args[3], launch.args[4]
    g = ranges.get(glob)
    ob(g is not None and len(g) == 1 and pos.node(g[0]) is wide("No"), "work items", "the number of work items is not the number of observation points")
    ob(loc not in ranges or ranges[loc] == [] or ranges[loc] == [X.TRUE], "work groups",
       "the size of the work groups need not divide the number of observation points: the kernel is not started and the image is not computed",
       "for example with one observation point and groups of " + (X.show(ranges[loc][0])[:40] if loc in ranges and ranges[loc] else "?"))
    r.note("host arguments", 2 * len(HOST) - 2)
    return r


def strings(m):
    """summaries with the texts put in strings"""
    def call(S, i, name, args):
        d = compose.dname(name)
        sh = compose.short(d)
        if sh.startswith("std::") and "basic_string" in sh:
            last = sh.split("::")[-1]
            if last.startswith(("basic_string", "operator=", "assign")) and len(args) >= 2 and "operator==" not in last:
                w = octave.text(m, args[1])
                S.effect("text", i, addr=args[0], val=X.num(octave.word(w)) if w is not None else X.BOT, name=w)
                return args[0]
            if last in ("c_str", "data"):
                return X.at(gsa.mark_ptr(X.atom("sym", "text of", args[0].leaf if args[0].q is None else str(args[0]), isint=True)))
        return compose.array_call(S, i, name, args)
    return call


def prepared(ty):
    """DAS<T>::init_opencl: the kernel for the type of imaging and the sizes of the buffers"""
    r = K.Result("P09")
    member, slots = kept(ty)
    this = X.atom("sym", "this", isint=True)
    u = compose.Unit([("opencl/cl_das.cc", "octcl")], keep=(r"^[^(]*\bcl::", "basic_string"), allstd=True)
    F = u.one(rf"DAS<{ty}>::init_opencl\(")
    F.mod.body(F)
    where = K.floc(F)
    S = gsa.Summary(F, params=compose.entry_params(F, True), on_call=strings(u.m), tag="I", arrays=True)
    short = lambda e: compose.short(compose.dname(e.name)).split("::")
    calls = [e for e in S.effects if e.kind == "call" and "cl::" in compose.dname(e.name)]
    typ = X.atom("sym", "das type", isint=True, dom=(0, None))
    wide = lambda x: X.at(X.atom("sym", x, isint=True, dom=(0, 2**31 - 1)))
    ob = lambda good, key, what, detail="": (r.ok(f"{where}: {key}") if good else r.bad(K.Finding(where, f"das<{ty}>: {what}", detail, f"init:{ty}:{key}")))
    size = X.num(8 if ty == "double" else 4)
    key = lambda n: n.leaf if n.q is None else n
    uc = compose.Unit([("opencl/cl_das.cc", "octcl")], keep=(r"^[^(]*\bcl::", "init_opencl"), allstd=True)
    C = uc.one(rf"DAS<{ty}>::DAS\(DASType")
    C.mod.body(C)
    made = [e for e in gsa.Summary(C, params=compose.entry_params(C, True), on_call=compose.numeric_call, tag="C").effects
            if e.kind == "call" and "init_opencl" in e.name]
    if len(made) != 1 or len(made[0].args) < 3:
        raise compose.AnalysisError(f"{K.floc(C)}: init_opencl is called {len(made)} times")
    b = gsa.base_of(key(made[0].args[1]))[0]
    n = [a for a in X.atomset(made[0].args[2]) if a.kind == "ld"]
    n = gsa.base_of(n[0].args[0])[0] if len(n) == 1 else None
    ob(b is not None and b.args[0] == f"__das_{ty}_cl" and n is not None and n.args[0] == f"__das_{ty}_cl_len", "source",
       "the kernels are compiled from the source for another precision")
    types = compose.enums()["DASType"]
    if set(types) < {"saft", "tfm", "rca_coltx", "rca_rowtx"}:
        raise compose.AnalysisError("imaging types: " + ", ".join(types))
    for t, kernel in enumerate("das_" + x for x in types):
        for some in (True, False):
            nr = X.add(X.at(X.atom("sym", "receivers after the first", isint=True, dom=(0, 2**31 - 2))), X.TRUE) if some else X.FALSE
            first = {key(member[0]).t[0][0][0][0].args[0]: X.num(t)}
            for k, n in ((1, "len"), (2, "No"), (3, "Nt")):
                first[key(member[k]).t[0][0][0][0].args[0]] = wide(n)
            first[key(member[4]).t[0][0][0][0].args[0]] = nr
            seen = {}

            def content(a):
                """what a location holds when it is read"""
                if a in seen:
                    return seen[a]
                at = a.args[2]
                time = at[1] if at and at[0] == "v" else 0
                v = None
                for e in reversed(S.effects):
                    if e.kind == "store" and e.seq < time and key(e.addr) is a.args[0]:
                        c = now(e.cond)
                        if c is X.TRUE:
                            v = now(e.val)
                            break
                        if c is not X.FALSE:
                            raise compose.AnalysisError(f"{where}: a member is stored under an unknown condition")
                if v is None:
                    v = first.get(a.args[0])
                seen[a] = v
                return v

            def now(n):
                m = {}
                for a in X.atomset(n):
                    if a.kind == "ld" and gsa.base_of(a.args[0])[0] is this:
                        v = content(a)
                        if v is not None:
                            m[a] = v
                return X.Subst(m).node(n) if m else n
            case = f"{kernel[4:]} with{'' if some else 'out'} receivers"
            k = [e for e in calls if short(e)[-2:] == ["Kernel", "Kernel"] and len(e.args) >= 3 and now(e.cond) is X.TRUE]
            if len(k) != 1:
                raise compose.AnalysisError(f"{where}: {len(k)} kernels made")
            a = X.atomset(k[0].args[2])
            a = [x for x in a if x.kind == "sym" and x.args[0] == "text of"]
            text = octave.text(u.m, k[0].args[2])
            if text is None and len(a) == 1:
                for e in S.effects:
                    if e.kind == "text" and e.seq < k[0].seq and key(e.addr) is a[0].args[1]:
                        c = now(e.cond)
                        if c is X.TRUE:
                            text = e.name
                        elif c is not X.FALSE:
                            raise compose.AnalysisError(f"{where}: the kernel's name depends on something unknown")
            if text is None:
                raise compose.AnalysisError(f"{where}: the kernel's name is not known")
            ob(text == (kernel if some else "das_saft"), f"{case}: kernel", f"{case}: the kernel is {text}")
            saft = kernel == "das_saft" or not some
            want = {"Y": X.mul(size, X.mul(wide("len"), X.mul(wide("Nt"), X.TRUE if saft else nr))), "gt": X.mul(X.mul(X.num(3), size), wide("Nt")),
                    "Ro": X.mul(X.mul(X.num(3), size), wide("No")), "Im": X.mul(size, wide("No"))}
            if not saft:
                want["gr"] = X.mul(X.mul(X.num(3), size), nr)
            end = X.at(X.atom("ld", key(member[4]).t[0][0][0][0].args[0], "i64", ("v", 10**9), isint=True))
            ob(now(end) is (X.FALSE if saft else nr), f"{case}: receivers", f"{case}: the number of receivers kept is not {'0' if saft else 'theirs'}", X.show(now(end))[:80])
            for role, (buf, length) in slots.items():
                if role not in want:
                    continue
                made = None
                for e in calls:
                    n = short(e)[-2:]
                    if n == ["Buffer", "operator="] and key(e.args[0]) is key(buf) and now(e.cond) is X.TRUE:
                        c = [x for x in calls if short(x)[-2:] == ["Buffer", "Buffer"] and x.args[0] is e.args[1] and x.seq < e.seq and now(x.cond) is X.TRUE]
                        made = now(c[-1].args[3]) if c else None
                if made is None:
                    raise compose.AnalysisError(f"{where}: the buffer with {role} is not found")
                ob(made is want[role], f"{case}: {role}", f"{case}: the buffer with {role} does not have its size", X.show(made)[:160])
                a = key(length).t[0][0][0][0]
                got = now(X.at(X.atom("ld", a.args[0], a.args[1], ("v", 10**9), isint=True)))
                ob(got is want[role], f"{case}: length of {role}", f"{case}: the length copied to or from the buffer with {role} is not that of the array",
                   X.show(got)[:160])
    r.note("imaging cases", 8)
    return r


CHOST = {"cl_rect_sir": (r"RectSir::cl_rect_sir\(", "rect_sir"), "cl_dreamrect": (r"Rect::cl_dreamrect\(", "dreamrect"),
         "cl_dreamcirc": (r"Circ::cl_dreamcirc\(", "dreamcirc")}


def chost(name):
    """the functions that use OpenCL's C interface: kernel, buffers, transfers, arguments and work items"""
    r = K.Result("P09")
    pat, kernel = CHOST[name]
    u = compose.Unit([(f"opencl/{name}.cc", "octcl")], keep=(r"\bcl[A-Z]\w*$",), allstd=True)
    F = u.one(pat)
    F.mod.body(F)
    where = K.floc(F)
    uk = compose.Unit([(f"opencl/{kernel}.cl", "cl")], allstd=True)
    KF = uk.one("^" + kernel + r"\b")
    KF.mod.body(KF)
    out, nt = KERNELS[kernel + ".cl"][kernel]
    ps = compose.entry_params(F, True)
    S = gsa.Summary(F, params=ps, on_call=compose.array_call, tag="E", arrays=True)
    ps = ps[1:]
    if len(ps) != len(KF.params):
        raise compose.AnalysisError(f"{name}: {len(ps)} parameters, its kernel has {len(KF.params)}")
    calls = [x for e in S.effects if e.kind == "call" and (e.name or "").startswith("cl") for x in unrolled(e)]
    named = lambda n: [e for e in calls if e.name == n]
    ob = lambda good, key, what, detail="": (r.ok(f"{where}: {key}") if good else r.bad(K.Finding(where, f"{name}: {what}", detail, f"{name}:{key}")))

    def held(e, p):
        for s in sorted(S.effects, key=lambda s: -s.seq):
            if s.kind == "store" and s.seq < e.seq and s.addr is p and s.cond is X.TRUE and not s.loops:
                return s.val
        return None

    def handle(e, x):
        """the buffer a handle stands for: a value, or read from a variable"""
        a = list(x.leaf.atoms()) if x.q is None and x.leaf is not X.BOT else []
        return held(e, X.L(a[0].args[0])) if len(a) == 1 and a[0].kind == "ld" else x
    starts = named("clEnqueueNDRangeKernel")
    if len(starts) != 1 or starts[0].cond is not X.TRUE:
        raise compose.AnalysisError(f"{name}: {len(starts)} launches of a kernel")
    launch = starts[0]
    k = [e for e in named("clCreateKernel") if e.val is launch.args[1]]
    ob(len(k) == 1 and octave.text(u.m, k[0].args[1]) == kernel, "kernel", f"the kernel started is not {kernel}")
    given = {}
    for e in named("clSetKernelArg"):
        k = e.args[1].leaf.const() if e.args[1].q is None else None
        if k is None or e.cond is not X.TRUE:
            raise compose.AnalysisError(f"{name}: an argument of the kernel is set under a condition or at an unknown place")
        if e.seq < launch.seq:
            given[int(k)] = e
    ob(not set(given) - set(range(len(ps))), "arguments", "the kernel is given arguments it does not have")
    n3 = X.mul(X.num(24), ps[1])
    nh = X.mul(X.num(8), X.mul(ps[nt], ps[1]))
    for k, p in enumerate(KF.params):
        e = given.get(k)
        if e is None:
            ob(False, f"argument {k}", f"argument {k} of the kernel is not set")
            continue
        size = 4 if p.ty.kind == "int" else 8
        ob(e.args[2] is X.num(size), f"size of {k}", f"the size of argument {k} is not {size}", X.show(e.args[2])[:80])
        v = held(e, e.args[3])
        if v is None:
            raise compose.AnalysisError(f"{name}: the value of argument {k} is not known")
        if k not in (0, out):
            ob(v is ps[k], f"argument {k}", f"argument {k} of the kernel is not argument {k + 1} of the function", X.show(v)[:120])
            continue
        b, want, io = [b for b in named("clCreateBuffer") if b.val is v], (n3 if k == 0 else nh), "clEnqueueWriteBuffer" if k == 0 else "clEnqueueReadBuffer"
        ob(len(b) == 1 and b[0].args[2] is want, f"buffer {k}", f"the buffer for argument {k} of the kernel does not have the size of its array",
           X.show(b[0].args[2])[:120] if len(b) == 1 else "")
        w = [x for x in named(io) if handle(x, x.args[1]) is v and (x.seq < launch.seq) == (k == 0)]
        fine = len(w) == 1 and w[0].cond is X.TRUE and w[0].args[3] is X.FALSE and w[0].args[4] is want and w[0].args[5] is ps[k]
        ob(fine, f"transfer {k}", f"the array {'is not copied to the buffer of' if k == 0 else 'is not read from the buffer of'} argument {k}")
        wait = fine and (w[0].args[2] is X.TRUE or any(x.seq > w[0].seq and x.cond is X.TRUE for x in named("clFinish")))
        ob(wait, f"wait {k}", "nothing waits for the transfer to end")
    dims = launch.args[2]
    g = held(launch, launch.args[4])
    ob(dims is X.TRUE and launch.args[3] is X.FALSE and g is ps[1], "work items", "the number of work items is not the number of observation points")
    l = launch.args[5]
    lv = X.TRUE if l is X.FALSE else held(launch, l)
    ob(lv is X.TRUE, "work groups", "the size of the work groups need not divide the number of observation points: the kernel is not started and the "
       "response is not computed", "for example with one observation point and groups of " + (X.show(lv)[:40] if lv is not None else "?"))
    r.note("host arguments", len(ps))
    return r


def job(a):
    return {"host": host, "chost": chost, "init": prepared}.get(a[0], lambda _: one(a))(a[1])


def check(tier):
    return parallel("P09", job, [("host", "double"), ("host", "float")] + [("init", "double"), ("init", "float")] + [("chost", k) for k in CHOST] + [(s, k) for s in KERNELS for k in KERNELS[s]])
