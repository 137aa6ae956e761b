"""Composition of the summaries of a threaded entry point and its worker, and reduction of a summary to its
observable numeric effects, so that an implementation and a reference specification can be compared."""
import re
from fractions import Fraction as Q
from . import build, llvm, gsa, expr as X
from .expr import Poly, Node, Atom, TRUE, FALSE, UNDEF, BOT, AND, OR, NOT, ite, L, at, atom, add, sub, mul, num

PASSES = "always-inline,function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify,lcssa)"


class AnalysisError(Exception):
    """the anchor of a rule is missing or the analysis cannot decide: the check is broken, not the property"""


class NoRecord(AnalysisError):
    """the record handed to a worker is not one the entry point fills in"""


STD_INLINE = re.compile(
    r"std::(sqrt|rint|abs|fabs|floor|ceil|pow|min|max|clamp|fmin|fmax|move|forward|addressof|__addressof|swap|exchange|"
    r"norm|real|imag|conj|operator[-+*/]|isfinite|isnan|signbit|round|lround|lrint|trunc|hypot|fill|fill_n|copy|copy_n|"
    r"__fill_a|__fill_a1|__fill_n_a|__fill_n_a1|__copy_move_a|__copy_move_a1|__copy_move_a2|__niter_base|__niter_wrap|__miter_base|"
    r"__size_to_integer|__iterator_category|__copy_n_a|__copy_n|distance|advance|transform|accumulate|for_each|generate|ref|cref|"
    r"max_element|min_element|__max_element|as_const|bit_cast|polar|arg|invoke|__invoke|__invoke_impl)(?!\w)|"
    r"std::__copy_move<.*>::__copy_m|std::reference_wrapper<.*>::|"
    r"std::(vector|array|unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base|complex|span|pair|initializer_list|"
    r"__array_traits|_Vector_base)<.*>::(operator\[\]|data|begin|end|size|get|_M_ptr|_M_head|operator\*|operator->|operator bool|real|imag|"
    r"front|back|at|_M_data_ptr|empty|cbegin|cend|__rep|operator[-+*/]=|subspan)(?!\w)|"
    r"std::(get|__get_helper)<|std::numeric_limits<.*>::|__gnu_cxx::__(normal_iterator|ops)|__gnu_cxx::operator")


STD_ANY = re.compile(r"std::(?!thread|basic_|locale|ios|ctype|mutex|__cxx11|char_traits|to_string|__detail|system_error|chrono|this_thread"
                     r"|uncaught|exception|filebuf|future|shared_ptr|__shared)|__gnu_cxx::(?!__to_xstring|__stoa)|operator new|operator delete")


def dname(n):
    return llvm.demangle1(n)


def short(d):
    """function name without arguments, template arguments and return type"""
    depth = 0
    out = []
    for ch in d:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            break
        elif depth == 0:
            out.append(ch)
    return "".join(out).split(" ")[-1]


def qual(d):
    """qualified name with template arguments, without return type and parameters"""
    depth = 0
    start = 0
    for i, ch in enumerate(d):
        if ch == "<" and not d[:i].endswith("operator"):
            depth += 1
        elif ch == ">" and not d[:i].endswith(("operator", "-")):
            depth -= 1
        elif ch == "(" and depth == 0:
            return d[start:i]
        elif ch == " " and depth == 0 and not d[:i].endswith("operator"):
            start = i + 1
    return d[start:]


def in_repo(f):
    return bool(f.file) and (f.file.startswith(build.REPO + "/") or f.file.startswith(build.VERIF + "/spec"))


class Unit:
    """some translation units linked together and brought into the canonical IR form"""

    def __init__(self, jobs, keep=(), paths=None, allstd=False, inline_workers=False):
        """keep: regexes on demangled names that must stay calls (opaque operations)"""
        got = paths or build.compile_many(jobs)
        self.jobs = jobs
        self.m = llvm.Module([got[j] for j in jobs]).load()
        self.allstd = allstd
        self.keep = [re.compile(k) for k in keep]
        self.workers = set() if inline_workers else find_workers(self.m)
        self.m.set_inlining(self._policy)
        self.m.run(PASSES)
        self.m.reload()

    def _policy(self, n):
        d = dname(n)
        f = self.m.fns.get(n)
        if n in self.workers or any(k.search(d) for k in self.keep):
            return False
        if STD_INLINE.match(qual(d)):
            return True
        if self.allstd and f is not None and not f.decl and (STD_ANY.match(qual(d)) or d.startswith(("_ZNSt", "_ZNKSt", "_ZSt"))):
            return True
        if f is not None and not f.decl and in_repo(f):
            return True
        return None

    def find(self, rx, what=None, n=None):
        r = re.compile(rx)
        out = [f for f in self.m.fns.values() if not f.decl and r.search(f.dem)]
        if not out:
            raise AnalysisError(f"no function matching /{rx}/" + (f" ({what})" if what else ""))
        return out

    def one(self, rx, what=None):
        out = self.find(rx, what)
        if len(out) != 1:
            raise AnalysisError(f"{len(out)} functions match /{rx}/: {[f.dem for f in out]}")
        return out[0]


def find_workers(m):
    """functions of the repository that are started on a std::thread: their address is taken in a function that
    constructs one (directly or through a member-function pointer)"""
    out = set()
    for n, f in m.fns.items():
        if f.decl or not in_repo(f):
            continue
        m.body(f)
        makes = False
        fs = set()
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ("call", "invoke") and i.callee.k == "func" and re.match(r"_ZNSt6threadC", i.callee.name) \
                        and i.callee.name.startswith(("_ZNSt6threadC1I", "_ZNSt6threadC2I")):
                    makes = True
                for o in i.ops or ():
                    collect_funcs(m, o, fs)
        if makes:
            for g in fs:
                gf = m.fns.get(g)
                if gf is not None and in_repo(gf) and not re.match(r"_ZNSt6thread", g):
                    out.add(g)
    return out


def collect_funcs(m, v, out, d=0):
    if v is None or d > 4:
        return
    if v.k == "func":
        out.add(v.name)
    elif v.k in ("agg", "cexpr"):
        for o in v.ops or ():
            collect_funcs(m, o, out, d + 1)
    elif v.k == "global" and d < 3:
        init = m.global_init(v.name)
        if init is not None:
            collect_funcs(m, init, out, d + 1)


# ------------------------------------------------------------------------------------------------
# numeric mode: run-control state is fixed to "keep going"

def numeric_call(S, i, name, args):
    """Interpretation of run-control and resource calls when only the numeric effect matters: nobody aborts, an
    out-of-range sample is recorded and skipped."""
    d = dname(name)
    sh = short(d)
    if sh == "dream_out_of_bounds_err":
        S.effect("oob", i, args=[], name="oob")
        return FALSE
    if "std::atomic" in sh or "std::__atomic" in sh or d.startswith("std::atomic"):
        if "operator bool" in d or "::load(" in d or "operator()" in d:
            return TRUE
        return TRUE
    if name == "octave_quit" or sh in ("std::operator<<", "std::basic_ostream::operator<<"):
        return at(gsa.mark_ptr(atom("sym", "io", isint=True)))
    if sh.startswith("std::"):
        if "ostream" in sh or "basic_string" in sh or "mutex" in sh or "lock_guard" in sh:
            return at(gsa.mark_ptr(atom("sym", "io", isint=True)))
        if "unique_ptr" in sh or "make_unique" in sh:
            return at(gsa.mark_ptr(atom("sym", "std", sh, args[0] if args else 0, isint=True)))
    return None


def array_call(S, i, name, args):
    """numeric_call with allocation made explicit: every allocation is a fresh object"""
    if name in ("malloc", "_Znwm", "_Znam", "calloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "fftw_malloc", "fftwf_malloc"):
        a = gsa.mark_ptr(atom("heap", S.tag, len(S.heap), S.ktuple(), isint=True))
        S.heap[len(S.heap)] = "zero" if name == "calloc" else "uninit"
        return at(a)
    if name in ("free", "_ZdaPv", "_ZdlPv", "_ZdlPvm", "_ZdaPvm", "fftw_free", "fftwf_free"):
        return FALSE
    return numeric_call(S, i, name, args)


_enums = None


def enums():
    """enumerators of the enum classes in dream.h (from the current tree)"""
    global _enums
    if _enums is None:
        import os
        _enums = {}
        s = open(os.path.join(build.REPO, "include", "dream.h")).read()
        s = re.sub(r"//.*|/\*.*?\*/", "", s, flags=0)
        for m in re.finditer(r"enum\s+class\s+(\w+)[^{]*\{([^}]*)\}", s):
            names = [x.strip().split("=")[0].strip() for x in m.group(2).split(",") if x.strip()]
            _enums[m.group(1)] = names
    return _enums


def split_args(d):
    """argument type strings of a demangled function signature"""
    i = d.find("(")
    # skip template arguments such as foo<(X)1>(...)
    depth = 0
    start = None
    for j, ch in enumerate(d):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            start = j
            break
    if start is None:
        return []
    out, cur, depth = [], "", 0
    for ch in d[start + 1:]:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            if ch == ")" and depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def entry_params(F, method, fixed_level=True, mins=None):
    """parameter nodes of an entry point: arg i (0 = this for a method, shifted so that the first argument is 0)"""
    F.mod.body(F)
    tys = split_args(F.dem)
    out = []
    for n, p in enumerate(F.params):
        k = n - (1 if method else 0)
        if k < 0:
            out.append(at(gsa.mark_ptr(atom("sym", "this", isint=True))))
            continue
        dom = None
        t = tys[k].replace("const ", "") if k < len(tys) else ""
        if t == "ErrorLevel" and fixed_level:
            out.append(num(enums()[t].index("warn")))
            continue
        if t in enums():
            dom = (0, len(enums()[t]) - 1)
        if t == "bool":
            dom = (0, 1)
        if mins is not None and dom is None and p.ty.kind == "int":
            dom = (mins.get(k, 0), None)
        a = atom("arg", k, isint=p.ty.kind in ("int", "ptr"), dom=dom)
        if p.ty.kind == "ptr":
            gsa.mark_ptr(a)
        out.append(at(a))
    return out


class Launch:
    __slots__ = ("worker", "daddr", "effect", "threaded", "others")


class Threaded:
    """entry point + worker, composed"""

    worker_read = None      # called for every load of the worker
    worker_call = None      # for the calls of the worker, if not as in the entry point

    def __init__(self, unit, entry, method=True, on_call=numeric_call, hook=None, arrays=False, mins=None, params=None, resolve=False, on_read=None, exits=False):
        self.arrays = arrays
        self.on_call = on_call
        self.u = unit
        self.resolve = resolve
        self.entry = entry
        self.method = method
        self.E = gsa.Summary(entry, params=params or entry_params(entry, method, mins=mins), on_call=array_call if resolve else on_call, tag="E",
                             arrays=resolve, on_read=on_read, exits=exits)
        if resolve:
            # loads from local objects (a class instance built by the caller) are looked up in what was stored there
            from . import arrays as A
            eng = self.eng = A.Engine(self.E.effects)
            for e in self.E.effects:
                f = eng.addr.node
                e.cond = f(e.cond)
                if e.addr is not None:
                    e.addr = f(e.addr)
                if e.val is not None:
                    e.val = f(e.val)
                if e.args is not None:
                    e.args = [f(x) for x in e.args]
        self.hook = hook
        self.local = {}        # alloca atom key -> stores
        for e in self.E.effects:
            if e.kind == "store":
                b, off = gsa.base_of(e.addr.leaf) if e.addr.q is None else (None, None)
                if b is not None and b.kind == "alloca":
                    self.local.setdefault(b.key, []).append((off, e))
        self.objects = {}
        for e in self.E.effects:
            if e.kind == "call":
                d = short(dname(e.name))
                p = d.split("::")
                if len(p) >= 2 and p[-1] == p[-2] and e.args and e.args[0].q is None and not d.startswith("std::"):
                    b, off = gsa.base_of(e.args[0].leaf)
                    if b is not None and b.kind == "alloca":
                        self.objects[b] = at(gsa.mark_ptr(atom("obj", p[-1], tuple(e.args[1:]), isint=True)))
        self.launches()

    def deref(self, n):
        """value last stored to a local the address of which was handed over"""
        if n.q is not None:
            return n
        b, off = gsa.base_of(n.leaf)
        if b is not None and b.kind == "alloca" and not off.t:
            st = [e for o, e in self.local.get(b.key, ()) if not o.t]
            if len(st) == 1:
                return st[0].val
        return n

    def launches(self):
        self.L = []
        for e in self.E.effects:
            if e.kind != "call":
                continue
            l = Launch()
            l.effect = e
            if e.name in self.u.workers:
                l.threaded = False
                l.worker = e.name
                l.daddr = e.args[-1]
                l.others = e.args[:-1]
                self.L.append(l)
            elif e.name.startswith(("_ZNSt6threadC1I", "_ZNSt6threadC2I")):
                l.threaded = True
                l.worker = None
                l.daddr = self.deref(e.args[-1])
                l.others = None
                self.L.append(l)
        if not self.L:
            raise AnalysisError(f"no worker launch found in {self.entry.dem}")
        ws = {l.worker for l in self.L if l.worker}
        if not ws:
            # only the threaded form: the worker is the function the thread constructor names
            ws = {w for w in self.u.workers if len(split_args(dname(w))) and split_args(dname(w))[0] == "void*"}
        if len(ws) != 1:
            raise AnalysisError(f"worker of {self.entry.dem} not unique: {ws}")
        self.worker = self.u.m.fns[ws.pop()]
        for l in self.L:
            l.worker = self.worker.name

    def fields_of(self, l):
        """offset -> list of (effect, value) stored to the thread record handed to launch l"""
        da = l.daddr
        out = {}
        if da.q is not None:
            raise AnalysisError(f"address of the thread data in {self.entry.dem} is not a single expression")
        base, _ = gsa.base_of(da.leaf)
        for e in self.E.effects:
            if e.kind == "store" and e.addr.q is None:
                b, off = gsa.base_of(e.addr.leaf)
                if b is base and base is not None:
                    d = X.padd(e.addr.leaf, da.leaf, -1)
                    c = d.const()
                    if c is None:
                        continue
                    out.setdefault(int(c), []).append(e)
            elif e.kind == "memcpy" and e.addr.q is None:
                d = X.padd(e.addr.leaf, da.leaf, -1)
                c = d.const()
                if c is None or e.args[0].q is not None:
                    continue
                sb, so = gsa.base_of(e.args[0].leaf)
                if sb is None:
                    continue
                for o, se in self.local.get(sb.key, ()):
                    x = X.padd(o, so, -1).const()
                    if x is not None:
                        out.setdefault(int(c + x), []).append(se)
        return out

    def compose(self):
        """worker summary with the record fields replaced by what the entry stored there"""
        th = [l for l in self.L if l.threaded] or self.L
        l = th[0]
        F = self.fields_of(l)
        if not F:
            raise NoRecord(f"no initialisation of the thread data found in {self.entry.dem}")
        self.fields = {}
        for off, es in F.items():
            v = UNDEF
            for e in es:
                v = e.val if e.cond is TRUE or v is UNDEF else ite(e.cond, e.val, v)
            self.fields[off] = v
        self.threadloop = l.effect.loops[-1] if l.effect.loops else None
        kt = atom("k", self.threadloop, isint=True, dom=(0, None)) if self.threadloop is not None else None
        self.kt = kt
        self.perthread = {off for off, v in self.fields.items() if kt is not None and kt.key in X.atoms_of(v)}
        W = self.worker
        W.mod.body(W)
        D = gsa.mark_ptr(atom("sym", "D", isint=True))
        self.D = D
        n = len(W.params)
        ps = [at(gsa.mark_ptr(atom("sym", "this", isint=True))) for _ in range(n - 1)] + [at(D)]
        base = X.patom(D)

        def on_load(S, i, p):
            if i.volatile or i.ordering:
                # the run flag, shared with the signal handlers: nobody aborts
                b, _ = gsa.base_of(p)
                return TRUE if b is not None and b.kind == "glob" else None
            c = X.padd(p, base, -1).const()
            if c is None:
                b, off = gsa.base_of(p)
                if self.resolve and b is not None and b.kind == "alloca" and b.args[0] == "E":
                    # an object of the caller, as it is when the worker is started
                    e = l.effect
                    kats = tuple(atom("k", x, isint=True, dom=(0, None)) for x in e.loops)
                    v = self.eng.addr.node(at(atom("ld", p, i.ty.s, ("v", e.seq, e.uids, kats))))
                    return None if X.unresolved(v) else v
                return None
            c = int(c)
            if c in self.perthread:
                return at(atom("sym", f"field{c}", isint=i.ty.kind in ("int", "ptr")))
            return self.fields.get(c)
        on_load.volatile = True
        self.W = gsa.Summary(W, params=ps, on_call=self.worker_call or (array_call if self.arrays else self.on_call), on_load=on_load, tag="W",
                             arrays=self.arrays, on_read=self.worker_read)
        # start / stop: bounds of the worker's outermost loop
        self.start = self.stop = None
        for e in self.W.effects:
            if e.loops:
                a = self.bounds(e.loops[0])
                if a:
                    self.start, self.stop = a
                    break
        m = dict(self.objects)
        if self.start is not None:
            m[atom("sym", f"field{self.start}", isint=True)] = at(atom("sym", "start", isint=True))
            m[atom("sym", f"field{self.stop}", isint=True)] = at(atom("sym", "stop", isint=True))
        self.sub = X.Subst(m)
        return [self.subst_effect(e) for e in self.W.effects]

    def subst_effect(self, e):
        f = lambda n: None if n is None else self.sub.node(n)
        r = gsa.Effect()
        r.kind, r.name, r.ins, r.size, r.seq = e.kind, e.name, e.ins, e.size, e.seq
        r.cond = f(e.cond)
        r.addr = f(e.addr)
        r.val = f(e.val)
        r.args = None if e.args is None else [f(x) for x in e.args]
        r.loops = tuple(self.loop(a) for a in e.loops)
        r.tcs = tuple(f(n) for n in e.tcs)
        r.uids = e.uids
        return r

    def loop(self, a):
        return self.sub.atom(a).leaf.t[0][0][0][0]

    def bounds(self, la):
        """(offset of the lower bound field, offset of the upper bound field) of a loop over the record's range"""
        for ish, c in la.args[1]:
            if c.q is None:
                continue
            lo = hi = None
            sc = [k for m, k in c.q.t if len(m) == 1 and m[0][0].kind == "self"]
            for m, k in c.q.t:
                if sc and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and m[0][0].args[0].startswith("field"):
                    x = int(m[0][0].args[0][5:])
                    if k == sc[0]:
                        lo = x
                    elif k == -sc[0]:
                        hi = x
            if lo is not None and hi is not None:
                return lo, hi
        return None


def reduce_effects(effects, token, bases=None):
    """-> {loops: {kind-sum node}}: the canonical observable content.
    token(effect) -> None (ignore) | list of (tokenkind, address node or None, value node, linear)"""
    out = {}
    where = {}
    order = []
    for e in effects:
        ts = token(e)
        if not ts:
            continue
        for kind, parts, val in ts:
            n = len(parts)

            def mk(*ps):
                if any(p is BOT for p in ps):
                    return UNDEF
                return L(X.pmul(X.patom(atom("tok", kind, *ps[:n])), ps[n]))
            node = X.apply(mk, *(list(parts) + [val]))
            node = ite(e.cond, node, FALSE)
            key = e.loops
            out[key] = add(out.get(key, FALSE), node)
            where.setdefault(key, []).append(e)
            order.append((kind.split(":")[0], key))
    out = {k: X.strip_bot(v) for k, v in out.items()}
    return {k: v for k, v in out.items() if v is not FALSE}, where, order
