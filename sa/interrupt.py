"""Interruption: signal handlers and the run flag in the binding functions, and the tests of the flag in the workers.

Works on the inlined control-flow graphs (compose.Unit): a typestate of the handlers, the flag and the threads along the
paths of a function that starts workers, and the paths of a worker's loops on which the flag reads as cleared."""
import re
from . import compose, gsa
from .compose import AnalysisError

TELLS = re.compile(r"^(error|error_with_id|dream_err_msg|err_\w+|print_usage|std::terminate|abort)\b")
INTR = re.compile(r"^llvm\.")


def callee(i):
    return i.callee.name if i.op in ("call", "invoke") and i.callee.k == "func" else None


def glob(v):
    """the global variable a pointer is (or is the start of)"""
    while v is not None and v.k in ("cexpr", "inst") and getattr(v, "op", None) in ("bitcast", "addrspacecast", "getelementptr"):
        if v.op == "getelementptr" and any(o.k != "int" or o.val for o in v.ops[1:]):
            return None
        v = v.ops[0]
    return v.name if v is not None and v.k == "global" else None


def value(v, env, zero, d=0):
    """the constant a value is when the flags in zero read as cleared, or None"""
    if v.k == "int":
        return v.val
    if v.k in ("null", "zero"):
        return 0
    if v.k != "inst" or d > 12:
        return None
    if v in env:
        return env[v]
    if v.op == "load":
        g = glob(v.ops[0])
        return (zero[g] if isinstance(zero, dict) else 0) if g in zero else None
    if v.op in ("phi", "call", "invoke"):
        return None
    if v.op in ("zext", "sext", "trunc", "freeze"):
        return value(v.ops[0], env, zero, d + 1)
    if v.op == "select":
        c = value(v.ops[0], env, zero, d + 1)
        if c is not None:
            return value(v.ops[1 if c & 1 else 2], env, zero, d + 1)
        a, b = (value(o, env, zero, d + 1) for o in v.ops[1:])
        return a if a is not None and a == b else None
    if v.op in ("icmp", "and", "or", "xor"):
        a, b = (value(o, env, zero, d + 1) for o in v.ops)
        if v.op == "and" and 0 in (a, b):
            return 0
        if v.op == "or" and v.ty.kind == "int" and v.ty.bits == 1 and any(x is not None and x & 1 for x in (a, b)):
            return 1
        if a is None or b is None:
            return None
        if v.op == "and":
            return a & b
        if v.op == "or":
            return a | b
        if v.op == "xor":
            return a ^ b
        p = v.pred
        return int({"eq": a == b, "ne": a != b}.get(p, {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}.get(p[1:])))
    return None


def targets(b, env, zero):
    """successors of a block when the flags read as cleared; unwinding left out"""
    t = b.instrs[-1]
    if t.op == "br" and t.ops:
        c = value(t.ops[0], env, zero)
        if c is not None:
            return [t.succs[0 if c & 1 else 1]]
        return list(t.succs)
    if t.op == "switch":
        c = value(t.ops[0], env, zero)
        if c is not None:
            return [dict(t.cases).get(c, t.succs[0])]
    if t.op == "invoke":
        return [t.succs[0]]
    return list(t.succs or [])


def keeps_on(loop, zero):
    """is there a path from the head of the loop back to it while the flags read as cleared"""
    start = (loop.header, frozenset())
    todo, seen = [start], {start}
    n = 0
    while todo:
        b, env = todo.pop()
        n += 1
        if n > 20000:
            raise AnalysisError("too many paths in a worker's loop")
        for s in targets(b, dict(env), zero):
            if s is loop.header:
                return True
            if s not in loop.blocks:
                continue
            e = dict(env)
            for i in s.instrs:
                if i.op != "phi":
                    break
                v = [x for x, p in i.incoming if p is b]
                c = value(v[0], dict(env), zero) if v and i.ty.kind == "int" and i.ty.bits <= 32 and s.instrs[0] is not None else None
                # only small facts are carried: what a flag decided
                if c is not None and i.ty.bits in (1, 8, 32) and not (s in inner_headers(loop)):
                    e[i] = c
                else:
                    e.pop(i, None)
            k = (s, frozenset(e.items()))
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return False


def inner_headers(loop):
    out, todo = set(), list(loop.children)
    while todo:
        l = todo.pop()
        out.add(l.header)
        todo.extend(l.children)
    return out


def column_loops(W):
    """the outermost loops of a worker that do work for every round"""
    top, _, _, _ = gsa.natural_loops(W)
    out = []
    for l in top:
        if l.children or any(i.op in ("call", "invoke") and not (callee(i) or "x").startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume"))
                             for b in l.blocks for i in b.instrs):
            out.append(l)
    return out


POLLS = ("octave_quit", "octave_handle_signal", "_Z11octave_quitv", "_Z20octave_handle_signalv")
INTERRUPT = "_ZTIN6octave19interrupt_exceptionE"


def polls(b):
    return [i for i in b.instrs if callee(i) in POLLS or i.op == "load" and glob(i.ops[0]) == "octave_signal_caught"]


def unpolled(loop, zero):
    """is there a way round the loop, the flags being set, on which Octave's pending interrupts are not looked at"""
    if polls(loop.header):
        return False
    flags = {g: 1 for g in zero}
    start = (loop.header, frozenset())
    todo, seen = [start], {start}
    while todo:
        b, facts = todo.pop()
        env = dict(facts)
        for s in targets(b, env, flags) + ([b.instrs[-1].unwind] if b.instrs[-1].op == "invoke" else []):
            if s is loop.header:
                return True
            if s not in loop.blocks or polls(s):
                continue
            k = enter(b, s, env, loop, flags)
            if k not in seen:
                if len(seen) > 20000:
                    raise AnalysisError("too many paths in a worker's loop")
                seen.add(k)
                todo.append(k)
    return False


def typeid(v, d=0):
    """the type a selector is compared with"""
    if v.k == "inst" and v.op in ("call", "invoke") and callee(v) and callee(v).startswith("llvm.eh.typeid.for"):
        return v.ops[0].name if v.ops[0].k == "global" else None
    return None


def enter(b, s, env, loop, flags=()):
    """the state after the step from block b to block s: small constants that phis take"""
    e = dict(env)
    new = {}
    for i in s.instrs:
        if i.op != "phi":
            break
        v = [x for x, p in i.incoming if p is b]
        new[i] = value(v[0], env, flags) if v and i.ty.kind == "int" and i.ty.bits <= 32 and s not in inner_headers(loop) else None
    for i, c in new.items():
        if c is None:
            e.pop(i, None)
        else:
            e[i] = c
    return s, frozenset(e.items())


def uncaught(loop, zero):
    """polls whose interrupt does not clear a flag of zero on every path: [(instruction, what happens instead)]"""
    out = []
    for b in loop.blocks:
        for i in polls(b):
            if i.op == "load":
                continue
            if i.op != "invoke":
                out.append((i, "is not caught in the thread"))
                continue
            start = enter(b, i.unwind, {}, loop)
            todo, seen = [start], {start}
            while todo:
                c, facts = todo.pop()
                env = dict(facts)
                if any(x.op == "store" and glob(x.ops[1]) in zero and value(x.ops[0], env, ()) == 0 for x in c.instrs):
                    continue
                t = c.instrs[-1]
                if t.op in ("resume", "unreachable"):
                    out.append((i, "is not caught in the thread"))
                    break
                nxt = targets(c, env, ())
                if t.op == "br" and t.ops and t.ops[0].k == "inst" and t.ops[0].op == "icmp":
                    ty = [typeid(o) for o in t.ops[0].ops if typeid(o)]
                    if ty:
                        is_it = (ty[0] == INTERRUPT) == (t.ops[0].pred == "eq")
                        nxt = [t.succs[0 if is_it else 1]]
                if not nxt or loop.header in nxt:
                    out.append((i, "does not clear the flag"))
                    break
                for s in nxt:
                    k = enter(c, s, env, loop)
                    if k not in seen:
                        if len(seen) > 5000:
                            raise AnalysisError("too many paths after an interrupt")
                        seen.add(k)
                        todo.append(k)
    return out


def line(i):
    return i.line or 0


class Handler:
    """what a signal handler does"""

    def __init__(self, m, name):
        self.f = m.fns.get(name)
        self.clears = set()
        self.unsafe = []
        if self.f is None or self.f.decl:
            return
        m.body(self.f)
        must = None
        for b in self.f.blocks:
            for i in b.instrs:
                n = callee(i)
                if i.op in ("call", "invoke") and not (n and (INTR.match(n) or n in ("signal", "write", "_exit", "raise", "kill"))):
                    self.unsafe.append(compose.dname(n).split("(")[0] if n else "a function pointer")
        # stores of 0 on every path
        def walk(b, got, seen):
            nonlocal must
            got = set(got)
            for i in b.instrs:
                if i.op == "store" and glob(i.ops[1]):
                    g = glob(i.ops[1])
                    if i.ops[0].k in ("int", "zero", "null") and not getattr(i.ops[0], "val", 0):
                        got.add(g)
                    else:
                        got.discard(g)
            if b in seen or not b.succs:
                must = got if must is None else must & got
                return
            for s in b.succs:
                walk(s, got, seen | {b})
        walk(self.f.blocks[0], set(), frozenset())
        self.clears = must or set()


class Paths:
    """the states a function that starts workers can be in, along its paths"""
    SIGINT = 2

    def __init__(self, u, F, workers):
        self.u, self.F, self.m = u, F, u.m
        self.workers = workers
        F.mod.body(F)
        self.found = []
        self.facts = []
        self.handlers = {}
        self.launches = set()
        self.returns = set()
        self.installs = set()
        self.starts = set()
        uses = {}
        for b in F.blocks:
            t = b.instrs[-1]
            if t.op == "br" and t.ops:
                uses[t.ops[0]] = uses.get(t.ops[0], 0) + 1
            for i in b.instrs:
                if callee(i) in ("sigaction", "sigprocmask", "pthread_sigmask", "sigset"):
                    raise AnalysisError(f"{F.dem.split('(')[0]}: {callee(i)} is not modelled")
        self.again = {c for c, n in uses.items() if n > 1 and c.k == "inst"}

    def handler(self, n):
        if n not in self.handlers:
            self.handlers[n] = Handler(self.m, n)
        return self.handlers[n]

    def origins(self, v, seen=None):
        """where the second argument of signal() comes from: functions and earlier calls of signal()"""
        seen = set() if seen is None else seen
        if v in seen:
            return set()
        seen.add(v)
        if v.k == "func":
            return {("fn", v.name)}
        if v.k in ("null", "undef", "zero"):
            return {("default", 0)} if v.k != "undef" else set()
        if v.k == "cexpr":
            if v.op == "inttoptr" and v.ops[0].k == "int":
                return {("default", v.ops[0].val)}
            return set().union(*[self.origins(o, seen) for o in v.ops])
        if v.k == "inst":
            if v.op in ("phi", "select"):
                return set().union(*[self.origins(o, seen) for o in (v.ops if v.op == "phi" else v.ops[1:])])
            if v.op in ("call", "invoke") and callee(v) == "signal":
                return {("was", v)}
            if v.op == "load":
                p = v.ops[0]
                g = glob(p)
                st = [i.ops[0] for b in self.F.blocks for i in b.instrs if i.op == "store" and (i.ops[1] is p or g and glob(i.ops[1]) == g)]
                if st and (g or p.k == "inst" and p.op == "alloca"):
                    return set().union(*[self.origins(o, seen) for o in st])
        raise AnalysisError(f"{self.F.dem.split('(')[0]}: a signal handler of unknown origin is set")

    def note(self, key, i, text):
        if (key, text) not in [(k, t) for k, _, t in self.found]:
            self.found.append((key, i, text))

    def flags(self):
        """flags cleared by the handlers of the interrupt signal"""
        out = set()
        for _, hs in self.installed(self.SIGINT):
            for h in hs:
                out |= self.handler(h).clears
        return out

    def installed(self, n):
        out = []
        for b in self.F.blocks:
            for i in b.instrs:
                if callee(i) == "signal" and i.ops[0].k == "int" and i.ops[0].val == n:
                    hs = {x[1] for x in self.origins(i.ops[1]) if x[0] == "fn"}
                    if hs:
                        out.append((i, hs))
        return out

    def run(self):
        F = self.F
        self.zero = self.flags()
        start = (F.blocks[0], (frozenset(), frozenset(), None, "", frozenset()))
        todo, seen = [start], {start}
        while todo:
            b, st = todo.pop()
            if len(seen) > 60000:
                raise AnalysisError(f"{F.dem.split('(')[0]}: too many states")
            for nxt in self.block(b, st):
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
        return self

    def block(self, b, st):
        sig, raised, launched, told, env = st
        out = []
        for n, i in enumerate(b.instrs):
            name = callee(i)
            if i.op in ("call", "invoke"):
                if name == "signal":
                    sig = self.signal(i, sig)
                elif name is not None and (name.startswith(("_ZNSt6threadC1I", "_ZNSt6threadC2I")) or name in self.workers):
                    launched, told = self.launch(i, sig, raised, self.started(i, name)), ""
                elif name is not None:
                    d = compose.dname(name)
                    if (TELLS.match(d) or name == "__cxa_throw") and told == "intr":
                        told = "told"
                stops = i.op == "invoke" and i.succs[0].instrs[0].op == "unreachable" or i.op == "call" and n + 1 < len(b.instrs) and b.instrs[n + 1].op == "unreachable"
                if stops:
                    if name is not None and re.match(r"_ZSt\d+__throw_", name):
                        return []
                    if i.op == "invoke":
                        return [(i.unwind, (sig, raised, launched, told, env))]
                    self.leave(i, sig)
                    return []
            elif i.op == "store":
                g = glob(i.ops[1])
                if g in self.zero:
                    v = i.ops[0]
                    if v.k == "int" and v.val or v.k not in ("int", "zero", "null"):
                        if launched is not None and g in launched:
                            self.note("raised late", i, "the run flag is set again after a worker has started, so an interrupt can be lost")
                        raised = raised | {g}
                    else:
                        raised = raised - {g}
            elif i.op == "ret":
                self.leave(i, sig)
                if launched is not None:
                    self.returns.add(i)
                    if told in ("", "intr"):
                        self.note("unnoticed", i, "an interrupted computation ends like a complete one" if not told else
                                  "an interrupted computation is noticed but not reported")
                return []
            elif i.op == "resume":
                self.leave(i, sig)
                return []
        t = b.instrs[-1]
        if t.op == "br" and t.ops:
            c = t.ops[0]
            known = dict(env).get(c)
            z = value(c, {}, launched) if launched else None
            plain = value(c, {}, set())
            for k, s in enumerate(t.succs):
                bit = 1 - k
                if known is not None and known != bit or plain is not None and (plain & 1) != bit:
                    continue
                w = told
                if z is not None and plain is None:
                    if (z & 1) == bit:
                        w = "intr" if told != "told" else told
                    elif told in ("", "intr"):
                        w = "ok"
                e = env
                if c in self.again and known is None:
                    e = env | {(c, bit)}
                out.append((s, (sig, raised, launched, w, e)))
            return self.fresh(b, out)
        nxt = [t.succs[0]] if t.op == "invoke" else list(t.succs or [])
        return self.fresh(b, [(s, (sig, raised, launched, told, env)) for s in nxt])

    def fresh(self, b, out):
        """conditions that are computed anew are not remembered"""
        res = []
        for s, (sig, raised, launched, told, env) in out:
            drop = {c for c, _ in env if c.block is s}
            res.append((s, (sig, raised, launched, told, frozenset(x for x in env if x[0] not in drop))))
        return res

    def signal(self, i, sig):
        if i.ops[0].k != "int":
            raise AnalysisError(f"{self.F.dem.split('(')[0]}: signal() with an unknown signal")
        n = i.ops[0].val
        held = dict(sig)
        o = self.origins(i.ops[1])
        was = {x[1] for x in o if x[0] == "was"}
        if was and not any(x[0] == "fn" for x in o):
            first = held.get(n)
            if first is None:
                return sig
            if any(w.ops[0].k == "int" and w.ops[0].val != n for w in was):
                self.note(f"restore {n}", i, f"the handler put back for signal {n} was that of another signal")
            if first not in was:
                self.note(f"restore {n}", i, f"the handler put back for signal {n} is not the one it had")
            return frozenset(x for x in sig if x[0] != n)
        self.installs.add((n, i))
        if n in held:
            return sig
        return sig | {(n, i)}

    def started(self, i, name):
        """the workers a call starts"""
        if name in self.workers:
            return {name}
        own = {w for w in self.workers if w not in self.handlers}
        c = re.search(r"\(([\w:<>]+)::\*", self.m.fns[name].dem or "")
        if c:
            own = {w for w in own if (self.m.fns[w].dem or "").startswith(c.group(1) + "::")}
        if not own:
            raise AnalysisError(f"{self.F.dem.split('(')[0]}: a thread is started with an unknown function")
        return own

    def launch(self, i, sig, raised, workers):
        """a worker starts; returns the flags the handler of the interrupt signal clears"""
        self.launches.add(i)
        held = dict(sig)
        if self.SIGINT not in held:
            self.note("no handler", i, "workers run without a handler for the interrupt signal (Ctrl-C)")
            return frozenset()
        hs = [x[1] for x in self.origins(held[self.SIGINT].ops[1]) if x[0] == "fn"]
        clears = frozenset.intersection(*[frozenset(self.handler(h).clears) for h in hs])
        for w in workers:
            self.starts.add((w, clears))
        reads = self.reads(workers) & clears
        if not reads <= raised:
            self.note("not raised", i, "the run flag is not set when a worker starts: an earlier interrupt stops this computation")
        return clears

    def reads(self, workers):
        out = set()
        for w in workers:
            W = self.m.fns[w]
            W.mod.body(W)
            out |= {glob(i.ops[0]) for b in W.blocks for i in b.instrs if i.op == "load"}
        return out - {None}

    def leave(self, i, sig):
        for n, c in sig:
            self.note(f"not restored {n}", i, f"the handler of signal {n} that was there before the call is not put back")
