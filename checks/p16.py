"""Threads do not touch each other's data: what a worker writes is its own, and what others write it does not read."""
import re
from sa import access as A, compose, gsa, kernels as K, expr as X
from sa.expr import BOT, mul, num
from . import bounds, p15
from .common import parallel
LEVEL = "proof"
MIN_OBLIGATIONS = 1500
TECHNIQUE = "effect and ownership analysis of composed worker summaries, ranges by linear-fact proofs (static)"
NOTE = ("Exact ownership argument for every size and number of threads: ranges of columns are disjoint (P10), so accesses inside the own columns "
        "cannot meet. Signal handlers, the C++ streams used for messages, and the Octave stream used when a run is interrupted are outside; "
        "so are inputs that overlap the output.")
EXPLAIN = ("Per launch site, the composed effects of a worker (all callees inlined): every write is to memory the worker allocated itself, to its own "
           "record, to an atomic object, or lies (proved like P15) in its own columns of an output; whatever some worker writes, every read of it "
           "obeys the same rule; no call to a function that is not safe to call from several threads (FFTW planners, wisdom, ...); the absorption "
           "filter shared by all threads writes only its caller's buffers; from the start of the first thread to the join of the last the caller "
           "writes nothing the threads use except the record of a thread not yet started. One obligation per access, call and write of the caller.")
ASSUME = ["the ranges of columns of different threads are disjoint (P10)", "distinct matrices do not overlap",
          "FFTW's new-array execute functions and the C library's mathematics are safe to call from several threads", "counts are below 2^31"]
UNSAFE = re.compile(r"^(fftwf?_(plan|destroy|import|export|cleanup|forget|set_timelimit|make_planner|plan_with)|(s?rand|drand48|srand48|lrand48|random|strtok|"
                    r"setenv|putenv|unsetenv|localtime|gmtime|asctime|ctime|setlocale|signal)(_\w+)?$)")


def name(e):
    return compose.short(compose.dname(e.name))


def bases(n):
    return {gsa.base_of(p)[0] for p in X.leaves(n, set()) if p is not BOT} if n is not None else set()


def private(b):
    return b.kind in ("heap", "alloca") and b.args[0] == "W"


def where(b):
    return X.show_atom(b)[:50] if b is not None else "no object"


class Site:
    def __init__(self, a):
        self.a = a
        self.r = K.Result("P16")
        self.doubt = []

    def bad(self, ins, key, text, detail=""):
        self.r.bad(K.Finding(K.loc(ins), f"{self.a[1]}: {text}", detail, key=f"{self.a[1]}:{key}"))

    def worker(self, s, J):
        acc = list(J.accesses())
        self.touched = {x.base for x in acc if x.base is not None}
        written = {x.base for x in acc if x.kind == "write" and x.base is not None and not private(x.base)}
        rec = compose.at(X.atom("sym", "D", isint=True)).leaf.t[0][0][0][0]
        for x in acc:
            b, ins = x.base, x.eff.ins
            if b is None or private(b) or b not in written:
                continue
            what = f"{self.a[1]}: {x.kind} of {where(b)} at {K.loc(ins)}"
            if b.kind == "sym" and b.args[0] == "D":
                self.record(s, x, what)
            elif b.kind == "glob" or b.kind == "sym" and b.args[0] == "this":
                if getattr(ins, "ordering", None) or name_of(ins).startswith(("std::atomic", "std::__atomic")):
                    self.r.ok(what)
                else:
                    self.bad(ins, f"shared:{where(b)}:{x.kind}", f"{x.kind} of {where(b)}, which all threads share and a thread writes, without synchronisation")
            elif b in s.own:
                f = J.prove(x, *s.own[b])
                if f is None:
                    self.r.ok(what)
                    continue
                side, g, fs = f
                e = A.example(g, fs)
                if e is None:
                    self.doubt.append(f"{what}: not decided: {X.show_poly(g)[:160]}")
                else:
                    self.bad(ins, f"range:{where(b)}:{x.kind}:{side}", f"{x.kind} of {where(b)} {'before' if side == 'below' else 'after'} the thread's own columns, "
                             "where another thread writes", "for example with " + A.told(g, e))
            else:
                self.bad(ins, f"foreign:{where(b)}:{x.kind}", f"{x.kind} of {where(b)}, which every thread shares and a thread writes")
        for e in s.W:
            if e.kind == "call":
                if UNSAFE.match(e.name) or UNSAFE.match(name(e)):
                    self.bad(e.ins, f"call:{e.name}", f"a worker calls {name(e)}, which threads must not call at the same time")
                else:
                    self.r.ok(f"{self.a[1]}: call of {name(e)}")
        return rec

    def record(self, s, x, what):
        step = None
        for l in s.T.L:
            if l.threaded and s.T.kt is not None:
                for n in X.leaves(l.daddr, set()):
                    for m, c in n.t:
                        if m == ((s.T.kt, 1),):
                            step = int(c)
        c = x.off.const()
        w = x.width.leaf.const() if x.width.q is None else None
        if step is not None and c is not None and w is not None and 0 <= c and c + w <= step:
            self.r.ok(what)
        else:
            self.bad(x.eff.ins, "record", "a worker writes outside its own record")

    def entry(self, s, J):
        """between the start of the first thread and the join of the last, the caller leaves what the threads use alone"""
        for l in s.T.L:
            if not l.threaded:
                continue
            la = l.effect.loops[-1] if l.effect.loops else None
            joins = [e.seq for e in s.entry if e.kind == "call" and name(e) == "std::thread::join"]
            if not joins:
                self.bad(l.effect.ins, "join", "the threads are not joined")
                continue
            for e in s.entry:
                if e.kind not in ("store", "acc", "memset", "memcpy"):
                    continue
                inside = la is not None and la in e.loops
                if not inside and not l.effect.seq < e.seq < max(joins):
                    continue
                for b in bases(J.node(e.addr)):
                    what = f"{self.a[1]}: caller's write of {where(b)} at {K.loc(e.ins)}"
                    if b is None or b in bases(l.daddr) and inside:
                        self.r.ok(what)
                    elif b not in self.touched:
                        self.r.ok(what)
                    else:
                        self.bad(e.ins, f"caller:{where(b)}", f"the caller writes {where(b)} while threads use it")


def name_of(ins):
    return compose.short(compose.dname(ins.callee.name)) if ins is not None and ins.op in ("call", "invoke") and ins.callee.k == "func" else ""


def job(a):
    t = Site(a)
    if a[0] == "att":
        for who, J, ext in bounds.absorption():
            if who == "constructor":
                continue
            for x in J.accesses():
                if x.kind == "write":
                    what = f"absorption filter: write at {K.loc(x.eff.ins)}"
                    if x.base in ext or private(x.base):
                        t.r.ok(what)
                    else:
                        t.bad(x.eff.ins, "filter", f"the absorption filter, shared by all threads, writes {where(x.base)}")
            for e in J.effects:
                if e.kind == "call" and UNSAFE.match(e.name):
                    t.bad(e.ins, f"call:{e.name}", f"the absorption filter calls {e.name}, which threads must not call at the same time")
    else:
        s = bounds.scene(a)
        js = {who: J for who, J, _ in bounds.judges(s)}
        t.worker(s, js["worker"])
        t.entry(s, js["entry"])
    t.r.note("launch sites and kernels", 1)
    if t.doubt and not t.r.findings:
        raise compose.AnalysisError("\n".join(t.doubt[:5]))
    return t.r


def check(tier):
    return parallel("P16", job, p15.JOBS)
