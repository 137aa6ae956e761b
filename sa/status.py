"""Typestate of the out-of-range status.

An abstract interpretation of the IR of a worker (kernels inlined) that follows the status values from the reports of
out-of-range samples through variables and the thread's record.  The abstract state is the block, the values of the
status-carrying variables, of the status field of the record and of the run flag, and whether a sample was out of range so far;
all tests that do not depend on these are taken both ways.  The domain is finite, so the fixpoint is exact for it."""
import re
from . import compose, gsa, expr as X
from .compose import AnalysisError, dname, short

REPORT = "dream_out_of_bounds_err"
CTL = "ctl"
SMALL = range(-8, 9)


class V:
    """known small integer, with whether it derives from a report"""
    __slots__ = ("v", "t")


class Site:
    def __init__(self, F, level, codes, level_off=None, status_off=None, init=None, level_arg=None, fixed=None, flag=None):
        """codes: level -> status value returned by a report; fixed: values of settings (objects as of where())"""
        self.fixed = fixed or {}
        self.flag_at = flag     # the run flag: the global(s) that are not it are ordinary variables
        self.F, self.level, self.codes = F, level, codes
        self.level_off, self.status_off = level_off, status_off
        self.level_arg = level_arg
        F.mod.body(F)
        self.found = []         # (kind, instr, text)
        self.reports = set()
        self.rets = set()
        self.init = init
        self.live()
        top, self.inner, _, _ = gsa.natural_loops(F)
        self.exits = {}
        self.steps = 0
        self.outer()

    def say(self, kind, ins, text):
        if not any(k == kind and i is ins for k, i, _ in self.found):
            self.found.append((kind, ins, text))

    # -- which values are followed -------------------------------------------------------------------------------
    FLOW = {"phi", "select", "icmp", "zext", "sext", "trunc", "and", "or", "xor", "freeze", "add", "sub", "load", "call", "invoke"}

    def tracked(self, v):
        return v.k == "inst" and v.op in self.FLOW and v.ty.kind == "int"

    def is_report(self, i):
        return i.op in ("call", "invoke") and i.callee.k == "func" and short(dname(i.callee.name)) == REPORT

    def atomic(self, i):
        """('get' | 'set', object, value) of an operation on the run flag"""
        a = self.shared(i)
        return a if a is not None and (self.flag_at is None or a[1] == self.flag_at) else None

    def shared(self, i):
        """('get' | 'set', object, value) of an operation on a std::atomic or volatile object"""
        if i.op == "load" and (i.volatile or i.ordering):
            p = self.where(i.ops[0])
            return ("get", p, None) if p and p[0] != "rec" else None
        if i.op == "store" and (i.volatile or i.ordering):
            p = self.where(i.ops[1])
            return ("set", p, i.ops[0]) if p and p[0] != "rec" else None
        if i.op in ("call", "invoke") and i.callee.k == "func":
            d = dname(i.callee.name)
            if re.match(r"std::(atomic|__atomic_base|atomic_flag|__atomic_flag_base)\b", d):
                if re.search(r"::(operator=|store)\(", d):
                    return ("set", self.where(i.ops[0]), i.ops[1])
                if re.search(r"::(operator [\w ]+|load|test)\(", d):
                    return ("get", self.where(i.ops[0]), None)
        return None

    def where(self, p):
        """object an address refers to: ('rec', offset), ('glob', name, offset), ('this', offset)"""
        off = 0
        while True:
            if p.k in ("inst", "cexpr") and p.op == "getelementptr":
                c, var = p.gep
                if var:
                    return None
                off += c
                p = p.ops[0]
            elif p.k in ("inst", "cexpr") and p.op in ("bitcast", "addrspacecast"):
                p = p.ops[0]
            else:
                break
        if p.k == "arg":
            n = [k for k, q in enumerate(self.F.params) if q is p]
            if n and n[0] == len(self.F.params) - 1 and self.status_off is not None:
                return ("rec", off)
            return ("arg", n[0] if n else -1, off)
        if p.k == "global":
            return ("glob", p.name, off)
        return None

    def live(self):
        """blocks' live-in status-carrying values: those a report, the record's status field or the run flag flow into or that feed them"""
        F = self.F
        uses = {}
        for b in F.blocks:
            for i in b.instrs:
                for o in i.ops or ():
                    uses.setdefault(o, []).append(i)
        # forward: what depends on reports, the level and the run flag
        rel = set()
        work = []
        for b in F.blocks:
            for i in b.instrs:
                src = self.is_report(i)
                if i.op == "load":
                    w = self.where(i.ops[0])
                    src = src or w is not None and w[0] == "rec" and w[1] in (self.level_off, self.status_off)
                a = self.atomic(i)
                src = src or a is not None and a[0] == "get"
                src = src or i.op == "load" and w in self.fixed
                if src and i not in rel:
                    rel.add(i)
                    work.append(i)
        for p in F.params:
            if self.level_arg is not None and p is F.params[self.level_arg]:
                work.append(p)
        while work:
            x = work.pop()
            for u in uses.get(x, ()):
                if self.tracked(u) and u.op not in ("load", "call", "invoke") and u not in rel:
                    rel.add(u)
                    work.append(u)
        # values selected by, or merged under, such tests: phis of constants that reach a sink
        sinks = []
        for b in F.blocks:
            for i in b.instrs:
                if i.op == "store":
                    w = self.where(i.ops[1])
                    if w is not None and w[0] == "rec" and w[1] == self.status_off:
                        sinks.append(i.ops[0])
                a = self.atomic(i)
                if a is not None and a[0] == "set":
                    sinks.append(a[2])
                if i.op == "ret" and i.ops:
                    sinks.append(i.ops[0])
                if i.op == "br" and i.ops and i.ops[0].k == "inst":
                    sinks.append(i.ops[0])
                if i.op == "switch":
                    sinks.append(i.ops[0])
                if self.is_report(i) and i.op != "load" and len(i.ops) > 2:
                    sinks.append(i.ops[2])
        work = [s for s in sinks if self.tracked(s)]
        back = set(work)
        while work:
            x = work.pop()
            if x.op in ("load", "call", "invoke"):
                continue
            for o in x.ops:
                if self.tracked(o) and o not in back:
                    back.add(o)
                    work.append(o)
        # of these: the report-dependent ones, and flags (phis of small constants)
        flags = set()
        for x in back:
            if x.op == "phi" and self.flag(x, set()):
                flags.add(x)
        self.rel = (rel & back) | flags | {x for x in back if x.op in ("icmp", "zext", "trunc", "select", "xor", "and", "or") and
                                           any(o in flags or o in rel for o in x.ops)}
        gen, kill = {}, {}
        for b in F.blocks:
            g, k = set(), set()
            for i in b.instrs:
                if i.op == "phi":
                    if i in self.rel:
                        k.add(i)
                    continue
                for o in i.ops or ():
                    if o in self.rel and o not in k:
                        g.add(o)
                if i in self.rel:
                    k.add(i)
            gen[b], kill[b] = g, k
        self.livein = {b: set(gen[b]) for b in F.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(F.blocks):
                out = set()
                for s in b.succs:
                    out |= self.livein[s]
                    for i in s.instrs:
                        if i.op != "phi":
                            break
                        if i in self.rel:
                            for v, fb in i.incoming:
                                if fb is b and v in self.rel:
                                    out.add(v)
                n = gen[b] | (out - kill[b])
                if n != self.livein[b]:
                    self.livein[b] = n
                    ch = True
        self.order = {v: n for n, v in enumerate(i for b in F.blocks for i in b.instrs)}
        self.order[CTL] = -1

    def flag(self, x, seen):
        """only ever assigned small constants"""
        if x in seen:
            return True
        seen.add(x)
        for o in x.ops:
            if o.k == "int":
                if o.val not in SMALL:
                    return False
            elif o.k == "inst" and o.op in ("phi", "select", "zext", "trunc", "freeze"):
                if not self.flag(o, seen):
                    return False
            elif o.k == "inst" and (self.is_report(o) or o.op == "icmp"):
                continue
            elif o.k == "inst" and o.op == "select":
                continue
            elif o.k == "undef":
                continue
            else:
                return False
        return True

    def settings(self):
        """settings the worker chooses between alternatives by: object -> constants it is compared with"""
        out = {}
        for b in self.F.blocks:
            for i in b.instrs:
                if i.op == "icmp" and i.pred in ("eq", "ne") and i.ops[0].k == "inst" and i.ops[0].op == "load" and i.ops[1].k == "int":
                    w, cs = self.where(i.ops[0].ops[0]), [i.ops[1].val]
                elif i.op == "switch" and i.ops[0].k == "inst" and i.ops[0].op == "load":
                    w, cs = self.where(i.ops[0].ops[0]), [v for v, _ in i.cases]
                else:
                    continue
                if w is not None and w[0] in ("rec", "arg") and w[-1] not in (self.level_off, self.status_off):
                    out.setdefault(w, set()).update(cs)
        return {w: cs for w, cs in out.items() if len(cs) > 1 and all(c in range(0, 16) for c in cs)}

    def outer(self):
        """outermost loops that contain a report"""
        self.columns = set()
        for b in self.F.blocks:
            if any(self.is_report(i) for i in b.instrs):
                l = self.inner.get(b)
                while l is not None and l.parent is not None:
                    l = l.parent
                if l is not None:
                    self.columns.add(l)

    # -- evaluation ----------------------------------------------------------------------------------------------
    def val(self, v, env):
        """(value, tainted) or None when unknown"""
        if v.k == "int":
            return (v.val, False)
        if v.k == "undef":
            return None
        if v.k == "arg" and self.level_arg is not None and v is self.F.params[self.level_arg]:
            return (self.level, False)
        return env.get(v)

    def eval(self, i, env):
        op = i.op
        a = [self.val(o, env) for o in i.ops]
        if op in ("zext", "sext", "trunc", "freeze"):
            r = a[0]
            if r is None:
                return None
            v = r[0]
            if op == "zext" and i.ops[0].ty.bits == 1:
                v &= 1
            if op == "trunc" and i.ty.bits < 32:
                v &= (1 << i.ty.bits) - 1
            return (v, r[1])
        if op == "select":
            c = a[0]
            if c is None:
                return a[1] if a[1] == a[2] else None
            r = a[1] if c[0] & 1 else a[2]
            return None if r is None else (r[0], r[1] or c[1])
        if op == "icmp":
            if a[0] is None or a[1] is None:
                return None
            x, y = a[0][0], a[1][0]
            if i.pred.startswith("u") and (x < 0 or y < 0):
                return None
            r = {"eq": x == y, "ne": x != y, "ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y,
                 "sgt": x > y, "sge": x >= y, "slt": x < y, "sle": x <= y}[i.pred]
            return (int(r), a[0][1] or a[1][1])
        if op in ("and", "or", "xor", "add", "sub"):
            if op == "and":
                for r in a:
                    if r is not None and r[0] == 0:
                        return r
            if op == "or" and i.ty.bits == 1:
                for r in a:
                    if r is not None and r[0] & 1:
                        return r
            if a[0] is None or a[1] is None:
                return None
            x, y = a[0][0], a[1][0]
            v = x & y if op == "and" else x | y if op == "or" else x ^ y if op == "xor" else x + y if op == "add" else x - y
            if i.ty.bits == 1:
                v &= 1
            return (v, a[0][1] or a[1][1]) if v in SMALL else None
        return None

    def run(self):
        F = self.F
        init = (0, 0, self.init, None, ())      # occurred, later column, status field, run flag, values (CTL: reached because of a status)
        entry = F.blocks[0]
        seen = {(entry, init)}
        work = [(entry, init)]
        while work:
            b, st = work.pop()
            self.steps += 1
            if self.steps > 60000:
                raise AnalysisError(f"too many states in {F.dem}")
            for s, st2 in self.block(b, st):
                k = (s, st2)
                if k not in seen:
                    seen.add(k)
                    work.append(k)
        return self

    def block(self, b, st):
        occ, col, cell, run, vals = st
        states = [(occ, col, cell, run, dict(vals))]
        for i in b.instrs:
            if i.op == "phi":
                continue
            nx = []
            for occ, col, cell, run, env in states:
                if self.is_report(i):
                    self.reports.add(i)
                    nx += self.reported(i, (occ, col, cell, run, env))
                    continue
                a = self.atomic(i)
                if a is not None:
                    if a[0] == "set":
                        v = self.val(a[2], env)
                        r = None if v is None else v[0]
                        nx.append((occ, col, cell, r if r is None else int(bool(r)), env))
                    else:
                        # run: None not known, 0 / 1 set by this worker, 2 found cleared by another
                        for r in ((min(run, 1) if run != 2 else 0,) if run is not None else (0, 1)):
                            e = env
                            if i in self.rel:
                                e = dict(env)
                                e[i] = (r, False)
                            nx.append((occ, col, cell, 2 if r == 0 and run is None else run, e))
                    continue
                if i.op == "load" and i in self.rel:
                    w = self.where(i.ops[0])
                    r = None
                    if w is not None and w[0] == "rec":
                        if w[1] == self.level_off:
                            r = (self.level, False)
                        elif w[1] == self.status_off and cell is not None:
                            r = (cell, True)
                    if w in self.fixed:
                        r = (self.fixed[w], False)
                    env = dict(env)
                    env[i] = r
                elif i.op == "store":
                    w = self.where(i.ops[1])
                    if w is not None and w[0] == "rec" and w[1] == self.status_off:
                        v = self.val(i.ops[0], env)
                        cell = None if v is None else v[0]
                elif i in self.rel:
                    env = dict(env)
                    env[i] = self.eval(i, env)
                if i.op == "ret":
                    rv = self.val(i.ops[0], env) if i.ops else None
                    self.rets.add((occ, cell, run, rv[0] if rv else None))
                nx.append((occ, col, cell, run, env))
            states = nx
        out = []
        t = b.instrs[-1]
        for occ, col, cell, run, env in states:
            ctl = CTL in env
            if t.op == "br" and t.ops or t.op == "switch":
                c = self.val(t.ops[0], env)
                ctl = ctl or c is not None and c[1]
            for s in self.targets(t, env, b, occ):
                e2 = {}
                for i in s.instrs:
                    if i.op != "phi":
                        break
                    if i in self.rel:
                        for v, fb in i.incoming:
                            if fb is b:
                                r = self.val(v, env)
                                if r is not None:
                                    e2[i] = (r[0], r[1] or ctl)
                for v in self.livein[s]:
                    if v in env and env[v] is not None:
                        e2[v] = env[v]
                if ctl and len(s.preds) < 2:
                    e2[CTL] = (1, True)
                c2 = col
                if occ and self.level in self.stops and not col:
                    l = self.inner.get(s)
                    if l is not None and l in self.columns and s is l.header and self.within(b, l):
                        c2 = 1
                out.append((s, (occ, c2, cell, run, tuple(sorted(e2.items(), key=lambda x: self.order[x[0]])))))
        return out

    def reported(self, i, st):
        occ, col, cell, run, env = st
        lv = self.val(i.ops[2], env) if len(i.ops) > 2 else None
        if lv is None or lv[0] != self.level:
            self.say("level", i, "an out-of-range sample is reported at a level other than the one the caller asked for")
        c = self.codes[self.level]
        if col:
            self.say("continues", i, "samples of a later observation point are still evaluated after an out-of-range sample at level 'stop'")
        env = dict(env)
        env[i] = (c, True)
        return [(1, col, cell, run, env)]

    stops = ()

    def within(self, b, l):
        x = self.inner.get(b)
        while x is not None:
            if x is l:
                return True
            x = x.parent
        return False

    def targets(self, t, env, b, occ):
        if t.op in ("ret", "unreachable", "resume"):
            return []
        if t.op == "invoke":
            # interrupts and exceptions end the computation: not followed here
            return [s for s in t.succs if not any(i.op == "landingpad" for i in s.instrs)]
        if t.op == "br" and t.ops:
            c = self.val(t.ops[0], env)
            if c is None:
                return t.succs
            s = t.succs[0] if c[0] & 1 else t.succs[1]
            self.left(t, b, s, c, occ)
            return [s]
        if t.op == "switch":
            c = self.val(t.ops[0], env)
            if c is None:
                return list(dict.fromkeys(t.succs))
            for v, s in t.cases:
                if v == c[0]:
                    self.left(t, b, s, c, occ)
                    return [s]
            self.left(t, b, t.succs[0], c, occ)
            return [t.succs[0]]
        return list(dict.fromkeys(t.succs))

    def left(self, t, b, s, c, occ):
        """a test of a status that leaves a loop"""
        if not c[1] or not occ or self.level in self.stops:
            return
        l = self.inner.get(b)
        if l is not None and not self.within(s, l):
            self.say("leaves", t, "the evaluation stops at an out-of-range sample although the level is not 'stop'")


def reports_of(unit):
    """status returned by a report at each level: dream_out_of_bounds_err itself"""
    F = unit.one(r"\b" + REPORT + r"\(")
    F.mod.body(F)
    lv = [n for n, t in enumerate(compose.split_args(F.dem)) if t == "ErrorLevel"]
    if len(lv) != 1:
        raise AnalysisError("signature of dream_out_of_bounds_err")
    out = {}
    for n, name in enumerate(compose.enums()["ErrorLevel"]):
        s = Site(F, n, {}, level_arg=lv[0]).run()
        out[name] = {r[3] for r in s.rets}
    return out


class Reads(Site):
    """the caller: whatever status it reads from a record is what it returns"""

    def __init__(self, F, level, codes, reads):
        self.reads = reads
        Site.__init__(self, F, level, codes)

    def is_report(self, i):
        return i in self.reads

    def outer(self):
        self.columns = set()

    def reported(self, i, st):
        """a record's status: no sample was out of range, or some were"""
        occ, col, cell, run, env = st
        for o, v in ((occ, self.none), (1, self.codes[self.level])):
            e = dict(env)
            e[i] = (v, True)
            yield o, col, cell, run, e

    none = 0

    def left(self, t, b, s, c, occ):
        pass


class Heap:
    """on_call / on_load hooks: allocations are opaque, reads of allocated records are recorded"""

    def __init__(self, base):
        self.base = base
        self.at = {}

    def call(self, S, i, name, args):
        if name in ("malloc", "calloc", "_Znam", "_Znwm"):
            k = self.at.setdefault(i, len(self.at))
            a = X.atom("sym", "heap", k, isint=True)
            gsa.mark_ptr(a)
            return X.at(a)
        return self.base(S, i, name, args)

    def read(self, S, i, a):
        """on_read hook"""
        for p in leaves(a):
            b, _ = gsa.base_of(p)
            if b is not None and b.kind == "sym" and b.args[0] == "heap" and i.ty.kind == "int":
                S.effect("call", i, args=[a], name="read:" + i.ty.s, val=X.FALSE)
                return


def leaves(n):
    out, work, seen = [], [n], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.q is None:
            if x.leaf is not X.BOT:
                out.append(x.leaf)
        else:
            work += x.kids
    return out


def run_flag(F, fns):
    """the flag the entry point raises before it starts: the one is_running() returns"""
    out = set()
    s = Site.__new__(Site)
    s.F, s.status_off = F, None
    for b in F.blocks:
        for i in b.instrs:
            a = s.shared(i)
            if a is not None and a[0] == "set" and a[2].k == "int" and a[2].val != 0 and a[1] and a[1][0] == "glob":
                out.add(a[1])
    if len(out) != 1:
        cls = F.dem.split("(")[0].split("::")[-2].split(" ")[-1]
        for g in fns:
            if not g.decl and re.search(r"(^|\s)" + re.escape(cls) + r"::is_running\(", g.dem):
                g.mod.body(g)
                s.F = g
                out = {a[1] for b in g.blocks for i in b.instrs for a in [s.shared(i)] if a is not None and a[0] == "get" and a[1]}
    if len(out) != 1:
        raise AnalysisError(f"{F.dem}: run flag not found")
    return out.pop()
