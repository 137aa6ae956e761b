"""Out-of-range samples: the error level decides, and the status reaches the caller."""
import re
from sa import compose, division, gsa, kernels as K, octave, status, expr as X
from sa.expr import AND, NOT, FALSE, atom, at
from .common import parallel
from .p10 import METHODS
LEVEL = "proof"
MIN_OBLIGATIONS = 280
TECHNIQUE = "typestate analysis (finite abstract interpretation) of the status from its report to the caller, with symbolic coverage proofs (static)"
NOTE = ("The status is followed through the IR of every worker (kernels inlined) and entry point, at each of the four levels, over a finite "
        "domain that keeps the status-carrying variables, the record's status field and the run flag exact and takes every other test both "
        "ways: a complete exploration of that abstraction. That the caller reads the record of every thread it started is proved from the "
        "symbolic summary of the launch and join loops. Trusts clang's front end and sa/.")
EXPLAIN = ("Per entry point and level: every report passes the caller's level; ignore, warn and stop give their own status; a worker that saw an "
           "out-of-range sample leaves that status in its record, otherwise 'none'; at ignore and warn no loop is left because of one; at stop "
           "no further observation point is evaluated by that worker and the other workers are told to stop; the caller reads the status of "
           "every worker after it has finished and returns 'none' only if all were 'none'.")
ASSUME = ["the run flag is not cleared by a signal during the call (interrupts: P19)", "std::thread and malloc behave as specified",
          "numbers of columns and threads are below 2^31"]
LEVELS = ("ignore", "warn", "stop", "parallel_stop")


def site(a):
    src, fn, ncol = a
    r = K.Result("P12")
    name = fn.replace("\\(", "").replace("::", "").split("|")[0].strip("^").replace("SIRError ", "")
    if "das" in src:
        name = "DAS<%s>" % ("float" if "float" in fn else "double")
    m = re.match(r"src/dream_arr_(\w+)\.cc", src)
    el = {"annu": "circ"}.get(m.group(1), m.group(1)) if m else None
    u = compose.Unit([(src, "oct")] + ([(f"src/dream{el}.cc", "oct")] if m else []))

    def bad(key, text, ins=None):
        if any(f.key == f"{src}:{name}:{key}" for f in r.findings):
            return
        where = src
        if ins is not None:
            where = K.floc(ins.block.fn) if hasattr(ins.block, "fn") else where
        r.findings.append(K.Finding("P12", f"{src}:{name}:{key}", f"{name}: {text}"))

    def ok(text):
        r.obligations += 1
        if len(r.samples) < 2:
            r.samples.append(f"{name}: {text}")
    codes_ = status.reports_of(compose.Unit([("src/dream_error.cc", "oct")]))
    E = compose.enums()["ErrorLevel"]
    S = compose.enums()["SIRError"]
    want = {"none": "none", "ignore": "ignore_out_of_bounds", "warn": "warn_out_of_bounds", "stop": "out_of_bounds", "parallel_stop": "out_of_bounds"}
    for l, w in want.items():
        ok("a report at level %s gives status %s" % (l, w))
        if codes_[l] != {S.index(w)}:
            bad("report", f"a report at level {l} gives status {sorted(codes_[l])}, not {w}")
    codes = {E.index(l): S.index(w) for l, w in want.items()}
    none = S.index("none")
    F = u.one(fn)
    F.mod.body(F)
    hp = status.Heap(None)
    h = octave.Calls(u.m)
    hp.base = h
    tys = compose.split_args(F.dem)
    lv = [n for n, t in enumerate(tys) if t == "ErrorLevel"]
    if len(lv) != 1:
        raise compose.AnalysisError(f"error level of {F.dem}")
    i = ncol[1] if ncol[0] == "arg" else None
    T = compose.Threaded(u, F, method=True, on_call=hp.call, on_read=hp.read,
                         params=compose.entry_params(F, True, fixed_level=False, mins={i: 0} if i is not None else None))
    T.compose()
    # fields of the record
    level_off = [o for o, v in T.fields.items() if v.q is None and any(x.kind == "arg" and x.args[0] == lv[0] for x in v.leaf.atoms())]
    ok("the caller's level is handed to every worker")
    if len(level_off) != 1:
        bad("level", "the caller's error level is not handed to the worker")
        return r
    l = [x for x in T.L if x.threaded][0]
    k = T.kt
    reads = {}
    base = gsa.base_of(l.daddr.leaf)[0]
    for e in T.E.effects:
        if e.kind == "call" and e.name.startswith("read:") and e.seq > l.effect.seq and \
                any(gsa.base_of(p)[0] is base for p in status.leaves(e.args[0])):
            reads.setdefault(e.ins, []).append(e)
    W = T.worker
    offs = {}
    D = X.patom(atom("sym", "D", isint=True))
    kk = X.patom(k) if k is not None else None
    step = None
    for m, c in l.daddr.leaf.t:
        if k is not None and m == ((k, 1),):
            step = int(c)
    if step is None:
        raise compose.AnalysisError(f"{F.dem}: records are not in an array")
    zero = X.Subst({k: FALSE}).node(l.daddr).leaf
    for ins, es in reads.items():
        for e in es:
            for p in status.leaves(e.args[0]):
                d = X.padd(p, zero, -1)
                c = int(d.t_const() if hasattr(d, "t_const") else sum(q for m, q in d.t if m == ()))
                offs.setdefault(c % step, set()).add(ins)
    # the field the worker leaves its status in
    cand = []
    for o in sorted(offs):
        s = status.Site(W, E.index("warn"), codes, level_off[0], o, none)
        s.run()
        if any(x[1] != none for x in s.rets):
            cand.append(o)
    ok("the worker leaves a status the caller reads")
    if len(cand) != 1:
        bad("status", "no field of the record that the worker sets at an out-of-range sample is read by the caller")
        return r
    off = cand[0]
    init = T.fields.get(off)
    init = int(init.leaf.const()) if init is not None and init.q is None and init.leaf.const() is not None else None
    stops = {E.index("stop"), E.index("parallel_stop")}
    states = 0
    flag = status.run_flag(F, u.m.fns.values())
    st = status.Site(W, 0, codes, level_off[0], off, init).settings()
    alts = [{}]
    for w in sorted(st):
        if len(alts) * (len(st[w]) + 1) <= 32:
            alts = [{**x, w: v} for x in alts for v in sorted(st[w]) + [max(st[w]) + 1]]
    for lname in LEVELS:
        n = E.index(lname)
        s = None
        for alt in alts:
            x = status.Site(W, n, codes, level_off[0], off, init, fixed=alt, flag=flag)
            x.stops = stops
            x.run()
            states += x.steps
            if s is None:
                s = x
            else:
                s.found += [f for f in x.found if f not in s.found]
                s.rets |= x.rets
                s.reports |= x.reports
        ok(f"level {lname}: worker")
        if not s.reports:
            bad("reports", "the worker never reports an out-of-range sample")
            break
        for kind, ins, text in s.found:
            bad(kind, f"level '{lname}': {text}", ins)
        ok(f"level {lname}: status left by the worker")
        for occ, cell, run, rv in s.rets:
            if occ and cell != codes[n]:
                bad("lost", f"level '{lname}': a worker that saw an out-of-range sample can leave status "
                            f"{S[cell] if cell is not None and 0 <= cell < len(S) else 'unset'} instead of {S[codes[n]]}")
                break
            if not occ and cell != none:
                bad("spurious", f"level '{lname}': a worker that saw no out-of-range sample can leave a status other than 'none'")
                break
        ok(f"level {lname}: other workers")
        for occ, cell, run, rv in s.rets:
            if occ and n in stops and run not in (0, 2):
                bad("others", "at level 'stop' a worker that saw an out-of-range sample can end without telling the other workers to stop")
                break
            if n not in stops and run == 0 and occ:
                bad("others", f"at level '{lname}' an out-of-range sample stops the other workers")
                break
        R = status.Reads(F, n, codes, offs[off])
        R.none = none
        R.run()
        states += R.steps
        ok(f"level {lname}: status returned by the caller")
        for occ, cell, run, rv in R.rets:
            if occ and rv != codes[n] or not occ and rv != none:
                bad("returned", f"level '{lname}': the status of a worker is not what the caller returns")
                break
    r.notes = {"entry points": 1, "abstract states": states}
    # every record is read after its worker
    N = X.patom(atom("arg", i, isint=True, dom=(0, None))) if i is not None else None
    if N is None:
        from .p10 import ctor_member
        C = [f for f in u.m.fns.values() if not f.decl and ncol[1] in f.dem]
        N = X.patom(atom("ld", X.padd(X.patom(atom("sym", "this", isint=True)), X.pconst(ctor_member(C, ncol[2], ncol[1]))), "i64", (), isint=True))
    dv = Reading(T, N, bad, name)
    dv.cover([e for ins in offs[off] for e in reads[ins]], off, l)
    for t in dv.done:
        ok(t)
    r.discharged = r.obligations - len({f.key for f in r.findings})
    return r


class Reading(division.Division):
    """the caller reads the status of every worker, after it has finished"""

    def run(self):
        pass

    def quiet(self, n):
        """statuses seen so far taken as none (once one was seen it is kept: the abstract interpretation shows that)"""
        m = {}
        for a in X.atomset(n):
            if a.kind in ("mu", "mux"):
                m[a] = a.args[1][0][0]
            elif a.kind == "ld":
                b, _ = gsa.base_of(a.args[0])
                if b is not None and b.kind == "sym" and b.args[0] == "heap":
                    m[a] = FALSE
        if not m:
            return n
        m[self.T.kt] = at(self.T.kt)
        return X.Subst(m).node(n)

    def cover(self, reads, off, l):
        T = self.T
        k = T.kt
        la = T.threadloop
        here = self.cont(la, at(k))
        self.done.append("the status of every started worker is read after it was joined")
        E = T.E
        joins = [e for e in E.effects if e.kind == "call" and compose.short(compose.dname(e.name)) == "std::thread::join" and e.loops]
        cond = self.plain(l.effect.cond)
        good = False
        for r in reads:
            if not r.loops or r.seq < l.effect.seq:
                continue
            if not any(j.seq < r.seq for j in joins):
                continue
            kj = atom("k", r.loops[-1], isint=True, dom=(0, None))
            S = X.Subst({kj: at(k)})
            rc = self.plain(self.quiet(S.node(r.cond)))
            ra = self.plain(self.quiet(S.node(r.args[0])))
            want = self.plain(X.add(l.daddr, X.num(off)))
            if ra is not want and X.sub(ra, want) is not FALSE:
                continue
            hj = self.quiet(self.cont(r.loops[-1], at(k)))
            missed = AND(AND(cond, here), NOT(AND(rc, hj)))
            if missed is FALSE or self.never(missed):
                good = True
        if not good:
            self.say("unread", "the status of a started worker can go unread")
        self.done.append("the status of a direct call is read after it")
        for d in T.L:
            if d.threaded:
                continue
            dc = AND(self.plain(d.effect.cond), here)
            left = dc
            for r in reads:
                if r.seq < d.effect.seq:
                    continue
                rc = self.plain(self.quiet(r.cond))
                if r.loops and r.loops[-1] is not la:
                    kj = atom("k", r.loops[-1], isint=True, dom=(0, None))
                    S = X.Subst({kj: at(k)})
                    ra = self.plain(self.quiet(S.node(r.args[0])))
                    rc = AND(self.plain(self.quiet(S.node(r.cond))), self.quiet(self.cont(r.loops[-1], at(k))))
                else:
                    ra = self.plain(self.quiet(r.args[0]))
                want = self.plain(X.add(d.daddr, X.num(off)))
                diff = AND(left, NOT(X.cmp("eq", X.sub(ra, want), FALSE, True)))
                c = self.case(diff, X.num(-1))
                if diff is FALSE or self.never(diff):
                    left = AND(left, NOT(rc))
            if left is not FALSE and not self.never(left):
                self.say("unread", "the status of a direct call can go unread")


def check(tier):
    return parallel("P12", site, [m for m in METHODS if not re.search("fftconv|rect_sir", m[0])])
