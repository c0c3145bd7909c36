"""C30: state of the compiler changed for a sub-task is restored on every exit."""
from ..exc import clean, exc
from ..facts import last_name
from ..flow import strip
from ..paths import Paths, Client, Frame, Out, TooMany

EXPLANATION = (
    "Balance analysis over every path, including those an exception leaves and the destructors of locals, of every function that changes "
    "state for the time of a sub-task: nesting counters, flags and stacks of the compiler's environment, the trail of bindings and the "
    "collector's lock. What a function raises it lowers before every exit; what a constructor changes the destructor of the class undoes, for "
    "every way through the constructor; functions with a lasting effect are primitives of their callers. For bindings of parameters and "
    "let variables: what is saved from an accessor is written back through the same accessor by the destructor of a guard object, "
    "never only at the end of a function that an error may leave earlier.")

# state that belongs to the sub-task at hand (further fields of the same class raised and lowered anywhere are added)
NESTED = {"callStack", "idStack", "inRedundantConstraint", "inSymmetryBreakingConstraint", "inMaybePartial", "inTraceExp", "inReverseMapVar",
          "ignorePartial", "callDepth"}
OWNER = "MiniZinc::EnvI"
CALLS = {"MiniZinc::GC::mark": ("trail", 1), "MiniZinc::GC::untrail": ("trail", -1),
         "MiniZinc::GC::lock": ("gclock", 1), "MiniZinc::GC::lockNoGC": ("gclock", 1), "MiniZinc::GC::unlock": ("gclock", -1)}
UP = {"++", "p++", "push_back", "emplace_back", "push", "emplace"}
DOWN = {"--", "p--", "pop_back", "pop"}
LIM = 4


def field(n):
    """qualified name of the field an expression denotes"""
    n = strip(n)
    while n is not None and n.k in ("icast", "paren", "cast", "scast") and n.c:
        n = strip(n.c[-1])
    return n.x[1] if n is not None and n.k == "mem" else None


def ops(n):
    """(resource, kind) of a node: +1, -1, or "set" with the assigned expression"""
    if n.k == "un" and n.x[0] in UP | DOWN:
        f = field(n.c[0])
        return (f, 1 if n.x[0] in UP else -1) if f else None
    if n.k == "bin" and n.x[0] in ("+=", "-="):
        f = field(n.c[0])
        k = strip(n.c[1])
        if f and k is not None and k.k == "int" and str(k.x[0]) == "1":
            return (f, 1 if n.x[0] == "+=" else -1)
        return None
    if n.k == "bin" and n.x[0] == "=":
        f = field(n.c[0])
        return (f, "set") if f else None
    if n.k == "mcall" and n.mname in UP | DOWN and n.c:
        f = field(n.c[0])
        return (f, 1 if n.mname in UP else -1) if f else None
    if n.is_call() and n.cq in CALLS:
        return CALLS[n.cq]
    return None


def boolean(n):
    n = strip(n)
    while n is not None and n.k in ("icast", "paren", "cast", "scast") and n.c:
        n = strip(n.c[-1])
    return bool(n.x[0]) if n is not None and n.k == "bool" else None


class Balance(Client):
    def __init__(self, c, roots):
        self.c = c
        self.watch = {}

    def tracked(self, eng, fr, path, n):
        if path[0] == "g":
            return False
        return path[-1] in self.watched(fr) if isinstance(path[-1], str) else len(path) > 3 and path[2] in self.watched(fr)

    def watched(self, fr):
        """names of variables and fields in conditions around changes"""
        k = fr.fn.key
        if k not in self.watch:
            w = set()
            for n in fr.fn.walk():
                o = ops(n)
                if o is None and not (n.is_call() and any(t.key in self.c.wrappers for t in self.c.prog.targets(n))):
                    continue
                if o is not None and o[0] not in self.c.res:
                    continue
                p = n.p
                while p is not None:
                    if p.k in ("if", "switch"):
                        for m in (p.c[2] if p.k == "if" and len(p.c) > 2 and p.c[2] is not None else p.c[-2] or p).walk():
                            if m.k == "ref" and m.x[0] in ("v", "p"):
                                w.add(m.x[1])
                            elif m.k == "mem":
                                w.add(m.x[0])
                    p = p.p
            self.watch[k] = w
        return self.watch[k]

    @staticmethod
    def delta(st, r):
        for f in st:
            if f[0] == "d" and f[1] == r:
                return f[2]
        return 0

    @staticmethod
    def setd(st, r, d):
        st = frozenset(f for f in st if not (f[0] == "d" and f[1] == r))
        return st | {("d", r, d)} if d else st

    def change(self, eng, n, st, fr):
        o = ops(n)
        if o is None or o[0] not in self.c.res:
            return st
        r, k = o
        if k == "set":
            if r not in self.c.flags:
                return st
            b = boolean(n.c[1])
            if b is None:
                # a saved value: the state before
                return self.setd(st, r, 0)
            if b:
                return self.setd(st, r, 1)
            return self.setd(st, r, 0) if self.delta(st, r) == 1 else st
        d = self.delta(st, r) + k
        return self.setd(st, r, max(-LIM, min(LIM, d)))

    def visit(self, eng, n, st, fr):
        if n.is_call():
            return st
        return self.change(eng, n, st, fr)

    def call(self, eng, n, st, fr):
        st2 = self.change(eng, n, st, fr)
        return [(st2, None)] if st2 != st else None

    def inline(self, eng, n, f, fr):
        return f.key in self.c.wrappers

    def dtor(self, eng, var, cls):
        return None         # guard objects are judged by themselves


class C30(object):
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.wrappers = set()
        self.res, self.flags = set(), set()
        self.resources()
        self.direct = {}
        for f in self.prog.F.values():
            if f.body is None or f.defaulted:
                continue
            for n in f.walk():
                o = ops(n)
                if o is not None and o[0] in self.res and (o[1] != "set" or o[0] in self.flags):
                    self.direct.setdefault(f.key, []).append(n)

    def resources(self):
        up, down, t, fl = set(), set(), set(), set()
        for f in self.prog.F.values():
            if f.body is None or f.cls == OWNER and f.name == last_name(OWNER):
                continue
            for n in f.walk():
                o = ops(n)
                if o is None:
                    continue
                if o[1] == 1:
                    up.add(o[0])
                elif o[1] == -1:
                    down.add(o[0])
                else:
                    b = boolean(n.c[1])
                    (t if b else fl if b is False else set()).add(o[0])
        own = {OWNER + "::" + f[0]: f[1] for f in self.prog.C.get(OWNER, {}).get("fields", ())}
        for q, ty in own.items():
            nm = last_name(q)
            b = clean(ty) == "bool"
            if nm in NESTED or not b and q in up and q in down:
                self.res.add(q)
            if b and (nm in NESTED or q in t and q in fl):
                self.res.add(q)
                self.flags.add(q)
        self.res |= {v[0] for v in CALLS.values()}

    # ------------------------------------------------------------- running
    def run(self, f, start=None):
        eng = Paths(self.prog, Balance(self, None), limit=4000)
        fr = Frame(f, ("this",))
        return eng.func(f, start or {frozenset()}, fr)

    @staticmethod
    def nets(states):
        return {tuple(sorted((x[1], x[2]) for x in s if x[0] == "d")) for s in states}

    def guard_class(self, f):
        return f.cls in self.prog.C and f.name == last_name(f.cls or "").split("<")[0]

    def analyse(self):
        ctx = self.ctx
        todo = set(self.direct)
        done = set()
        classes = {}
        while todo:
            k = min(todo)
            todo.discard(k)
            if k in done:
                continue
            done.add(k)
            f = self.prog.F[k]
            if self.is_ctor(f) or self.is_dtor(f):
                classes.setdefault(f.cls, set()).add(k)
                continue
            try:
                o = self.run(f)
            except TooMany:
                ctx.skip("%s: too many states" % f.q)
                continue
            ctx.count("functions that change nested state")
            norm = self.nets(o.norm | o.ret)
            thr = {t: self.nets(s) - {()} for t, s in o.thr.items()}
            thr = {t: s for t, s in thr.items() if s and self.resumed(f, t)}
            if norm <= {()} and not thr:
                ctx.ok("%s: restored on every exit" % f.q)
                continue
            callers = set(self.callers(f))
            if len(norm) == 1 and norm != {()} and callers and all(s <= norm for s in thr.values()):
                # a primitive of its callers
                self.wrappers.add(k)
                ctx.count("functions with a lasting effect")
                done -= callers
                todo |= callers
                continue
            for r in sorted({x[0] for s in norm for x in s}):
                ds = {dict(s).get(r, 0) for s in norm}
                ctx.bad("exit:%s:%s" % (f.q.split("<")[0], last_name(r)), f.loc(),
                        "%s of the compiler is %s on some path that returns from %s" % (
                            last_name(r), "still changed" if max(ds, key=abs) > 0 else "restored too often", f.q))
            for r in sorted({x[0] for ss in thr.values() for s in ss for x in s} - {x[0] for s in norm for x in s}):
                ts = sorted(last_name(t) for t, ss in thr.items() if any(x[0] == r for s in ss for x in s))
                ctx.bad("error:%s:%s" % (f.q.split("<")[0], last_name(r)), f.loc(),
                        "%s of the compiler stays changed when an error (%s) leaves %s" % (last_name(r), ", ".join(ts[:4]), f.q))
        for cls, ks in sorted(classes.items()):
            self.pair(cls)
        self.references()
        self.bindings()

    # ------------------------------------------------------------- handlers that carry on
    def nested_handlers(self):
        """(types, functions called in the try block) of handlers, within the compiler's recursion, that do not raise again"""
        if not hasattr(self, "_nh"):
            e = exc(self.prog)
            roots = [f for f in self.prog.F.values() if f.q in ("MiniZinc::eval_par", "MiniZinc::flat_exp", "MiniZinc::eval_bool",
                                                               "MiniZinc::flatten_call", "MiniZinc::typecheck")]
            self._nh = []
            for k in self.prog.reach(roots):
                g = self.prog.F[k]
                for tr in g.walk():
                    if tr.k != "try":
                        continue
                    for h in e.handlers(tr):
                        if any(m.k == "throw" for m in h.walk()) or not h.x[0] or "std::exception" in h.x[0]:
                            continue
                        called = {t.key for m in e.body(tr).walk() if m.is_call() or m.k in ("ctor", "new") for t in e.call_targets(m)}
                        self._nh.append((h, called))
        return self._nh

    def taken(self):
        """functions registered as implementations of library functions, called through pointers"""
        if not hasattr(self, "_taken"):
            self._taken = set()
            for f in self.prog.F.values():
                for n in f.walk():
                    if n.k == "ref" and n.x[0] == "f" and len(n.x) > 2 and n.x[2] in self.prog.F and "EnvI &,MiniZinc::Call *)" in n.x[2]:
                        if not (n.p is not None and n.p.is_call() and n.p.c[0] is n and n.p.cq):
                            self._taken.add(n.x[2])
        return self._taken

    def indirect(self):
        """functions that call such implementations"""
        if not hasattr(self, "_ind"):
            self._ind = {f.key for f in self.prog.F.values() for n in f.walk() if n.k == "icall"}
        return self._ind

    def resumed(self, f, t):
        """may an error of type t that leaves f end in a handler after which the compiler carries on"""
        e = exc(self.prog)
        above = self.prog.can_reach([f.key])
        if above & self.taken():
            above = above | self.prog.can_reach(self.indirect())
        for h, called in self.nested_handlers():
            hs = clean(h.x[0])
            if (e.caught(hs, t) or t in e.supers(hs)) and called & above:
                return True
        return False

    def callers(self, f):
        return list(self.prog.callers.get(f.key, ())) if isinstance(self.prog.callers, dict) else list(self.prog.callers(f))

    def is_ctor(self, f):
        return bool(f.cls) and f.name == last_name(f.cls).split("<")[0] or f.q.rsplit("::", 1)[-1] == (f.cls or "?").rsplit("::", 1)[-1].split("<")[0]

    def is_dtor(self, f):
        return "::~" in f.q

    def pair(self, cls):
        ctx = self.ctx
        fs = [f for f in self.prog.F.values() if f.cls == cls and f.body is not None and not f.defaulted]
        dt = [f for f in fs if self.is_dtor(f)]
        for c in fs:
            if not self.is_ctor(c):
                continue
            ctx.count("guard constructors")
            try:
                o = self.run(c)
                st = o.norm | o.ret
                for t, s in o.thr.items():
                    if self.nets(s) - {()} and self.resumed(c, t):
                        ctx.bad("error:%s" % c.q, c.loc(), "an error in the constructor %s leaves the state changed; no destructor runs" % c.q)
                if self.nets(st) <= {()} and not dt:
                    continue
                if not dt:
                    ctx.bad("pair:%s" % cls, c.loc(), "the constructor of %s changes %s; the class has no destructor that restores it" % (
                        cls, ", ".join(sorted({last_name(x[0]) for s in self.nets(st) for x in s}))))
                    continue
                o2 = self.run(dt[0], st)
                n2 = self.nets(o2.norm | o2.ret) | {x for s in o2.thr.values() for x in self.nets(s)}
            except TooMany:
                ctx.skip("%s: too many states" % c.q)
                continue
            bad = sorted({last_name(x[0]) for s in n2 for x in s})
            ctx.check(not bad, "pair:%s:%s" % (c.key.split("(")[0], len(c.params)), dt[0].loc(),
                      "%s changed by the constructor of %s not restored by its destructor on some path" % (", ".join(bad), cls),
                      "%s: restored by the destructor" % cls)

    # ------------------------------------------------------------- guards that hold a reference
    def references(self):
        """classes constructed from a counter or flag of the environment: what the constructor does to it, the destructor undoes"""
        ctx = self.ctx
        seen = {}
        for f in self.prog.F.values():
            for n in f.walk():
                if n.k != "ctor" or n.x[0] not in self.prog.F:
                    continue
                g = self.prog.F[n.x[0]]
                for i, a in enumerate(n.c):
                    q = field(a) if a is not None else None
                    if q in self.res and i < len(g.params) and g.params[i][1].rstrip().endswith("&") and "const" not in g.params[i][1]:
                        seen.setdefault((g.key, i), []).append((f, n, q))
        for (k, i), uses in sorted(seen.items()):
            g = self.prog.F[k]
            ctx.count("guards of a counter or flag")
            # the member bound to the parameter
            mem = None
            for c in g.body.p.c if g.body.p is not None else g.root.c:
                if c is not None and c.k == "init" and c.c:
                    r = strip(c.c[0])
                    if r is not None and r.k == "ref" and r.x[0] == "p" and r.x[2] == i and "&" in self.member_type(g.cls, last_name(c.x[0])):
                        mem = c.x[0]
            dt = [f for f in self.prog.F.values() if f.cls == g.cls and self.is_dtor(f) and f.body is not None]
            if mem is None or not dt:
                ctx.bad("guard:%s" % g.cls, g.loc(), "%s changes %s and has no destructor that restores it" % (g.cls, last_name(uses[0][2])))
                continue
            a, b = self.effects(g, mem, i), self.effects(dt[0], mem, None)
            inv = {"+=": "-=", "-=": "+=", "++": "--", "--": "++"}
            ok = False
            if len(a) == 1 and len(b) == 1:
                (o1, e1), (o2, e2) = a[0], b[0]
                if o1 in inv:
                    ok = inv[o1] == o2 and e1 == e2
                elif o1 == "=" and o2 == "=":
                    # from a member initialised with the value before
                    ok = e2 in {last_name(c.x[0]) for c in g.root.walk() if c.k == "init" and c.c and self.is_value_of(c.c[0], i, mem)}
            ctx.check(ok, "guard:%s" % g.cls, dt[0].loc(), "the destructor of %s does not undo what its constructor does to the counter or flag" % g.cls,
                      "%s: undone by the destructor" % g.cls)

    def member_type(self, cls, nm):
        for f in self.prog.C.get(cls, {}).get("fields", ()):
            if f[0] == nm:
                return f[1] + (f[5] if len(f) > 5 and isinstance(f[5], str) else "")
        return ""

    @staticmethod
    def is_value_of(n, i, mem):
        n = strip(n)
        while n is not None and n.k in ("icast", "paren") and n.c:
            n = strip(n.c[-1])
        return n is not None and (n.k == "ref" and n.x[0] == "p" and n.x[2] == i or n.k == "mem" and n.x[1] == mem)

    def effects(self, f, mem, i):
        """writes of the referenced object: (operator, operand), unconditional ones"""
        res = []
        for n in f.walk():
            if n.k == "un" and n.x[0] in ("++", "--", "p++", "p--") and self.is_value_of(n.c[0], i, mem):
                r = (n.x[0][-2:], "1")
            elif n.k == "bin" and n.x[0] in ("=", "+=", "-=") and self.is_value_of(n.c[0], i, mem):
                m = strip(n.c[1])
                while m is not None and m.k == "icast" and m.c:
                    m = strip(m.c[-1])
                r = (n.x[0], str(m.x[0]) if m is not None and m.k in ("mem", "int", "bool") else str(m.x[1]).lstrip("_") if m is not None and m.k == "ref" else None)
                if n.x[0] != "=" and r[1]:
                    r = (r[0], r[1].lstrip("_"))
            else:
                continue
            p = n.p
            while p is not None and p.k not in ("if", "for", "while", "switch", "cond", "?:"):
                p = p.p
            res.append(r if p is None else ("?", None))
        return res

    # ------------------------------------------------------------- bindings
    GET = ("MiniZinc::VarDecl::e", "MiniZinc::VarDecl::flat")

    def accessor(self, n, nargs):
        """accessor of a binding that is read (no argument) or written (one)"""
        return last_name(n.cq) if n is not None and n.is_call() and n.cq in self.GET and len([a for a in n.args() if a is not None]) == nargs else None

    def bindings(self):
        ctx = self.ctx
        guards = {}
        for f in self.prog.F.values():
            if f.body is None or f.defaulted:
                continue
            if not any(n.is_call() and n.cq in self.GET for n in f.walk()):
                continue
            if self.is_dtor(f):
                guards[f.cls] = f
                continue
            if self.is_ctor(f):
                continue
            saved = {}
            for n in f.walk():
                a = self.accessor(n, 0)
                if a is None:
                    continue
                v = self.kept(n)
                if v is not None:
                    saved.setdefault(v, set()).add(a)
            if not saved:
                continue
            for n in f.walk():
                a = self.accessor(n, 1)
                if a is None:
                    continue
                for m in n.args()[0].walk():
                    if m.k == "ref" and m.x[0] == "v" and a in saved.get(m.x[2], ()):
                        ts = sorted(last_name(t) for t in exc(self.prog).out.get(f.key, {}) if self.resumed(f, t))
                        if ts and self.between(f, m.x[2], n):
                            ctx.bad("binding:%s:%s" % (f.q.split("<")[0], a), f.loc(n),
                                    "%s restores the binding of a declaration by a statement that an error (%s) skips; later evaluation "
                                    "of the same function or let sees the binding of the abandoned one" % (f.q, ", ".join(ts[:3])))
        self.explicit(guards)
        # guards of bindings
        sets = {}
        for cls, d in sorted(guards.items()):
            sets[cls] = self.guard(cls, d) or set()
        for d in self.prog.F.values():
            if self.is_dtor(d) and d.cls and "MiniZinc::GC::untrail" in {self.prog.F[k].q for k in self.prog.reach([d]) if k in self.prog.F}:
                sets.setdefault(d.cls, set()).add("e")
        short = {}
        for cls, a in sets.items():
            if a:
                short.setdefault(last_name(cls.split("<")[0]), set()).update(a)
        # what users of the guards change
        for f in self.prog.F.values():
            if f.body is None:
                continue
            g = [(n, short[t]) for n in f.walk() if n.k == "var" for t in [last_name((n.type or "").replace("const ", "").split("<")[0].strip())] if t in short]
            if not g:
                continue
            ctx.count("uses of guards of bindings")
            for cls, ks in self.late.items():
                for x in g:
                    if last_name(cls.split("<")[0]) == last_name((x[0].type or "").replace("const ", "").split("<")[0].strip()):
                        ctx.check(any(n.is_call() and n.callee in ks for n in f.walk()), "save:%s" % f.q, f.loc(x[0]),
                                  "%s never saves a binding in its guard" % f.q, "binding saved")
            for n in f.walk():
                a = self.accessor(n, 1)
                if a and n.line > min(x[0].line for x in g):
                    ctx.check(any(a in x[1] for x in g), "changed:%s:%s" % (f.q.split("<")[0], a), f.loc(n),
                              "%s() of a declaration changed for the time of an evaluation; no guard restores it" % a, "%s restored" % a)

    def explicit(self, guards):
        """objects that keep bindings but give them back in a method that has to be called, not in their destructor"""
        for h in list(self.prog.F.values()):
            if h.body is None or not h.cls or h.static or self.is_dtor(h) or self.is_ctor(h):
                continue
            back = {}
            for n in h.walk():
                a = self.accessor(n, 1)
                if a:
                    for m in n.args()[0].walk():
                        if m.k == "mem":
                            back.setdefault(last_name(m.x[1] or m.x[0]), (a, n))
            if not back:
                continue
            kept = set()
            for f in self.prog.F.values():
                if f.cls == h.cls and f.body is not None and f is not h:
                    for n in f.walk():
                        a = self.accessor(n, 0)
                        m = self.member_kept(n) if a else None
                        if m in back and back[m][0] == a:
                            kept.add(a)
            d = guards.get(h.cls)
            if not kept or d is not None and h.key in self.prog.reach([d]):
                continue
            ctx = self.ctx
            for k in self.callers(h):
                f = self.prog.F.get(k)
                if f is None or f.cls == h.cls or f.body is None:
                    continue
                ts = sorted(last_name(t) for t in exc(self.prog).out.get(f.key, {}) if self.resumed(f, t))
                ctx.check(not ts, "binding:%s:%s" % (f.q.split("<")[0], sorted(kept)[0]), f.loc(),
                          "%s gives back the bindings kept in %s by a call that an error (%s) skips; later evaluation of the same function or let "
                          "sees the binding of the abandoned one" % (f.q, h.cls, ", ".join(ts[:3])), "bindings restored by a call nothing skips")

    @staticmethod
    def kept(n):
        """uid of the local in which the value is kept, for itself"""
        p, c = n.p, n
        while p is not None and (p.k in ("icast", "cast", "scast", "paren", "temp", "bind", "mat", "ctor") or p.k in ("ilist",)):
            c, p = p, p.p
        if p is None:
            return None
        if p.k == "var":
            return p.x[1]
        if p.k in ("bin", "ocall") and (p.x[0] == "=" or p.mname == "operator=") and p.c[-1] is c:
            for m in p.c[0].walk() if p.k == "bin" else p.c[-2].walk():
                if m.k == "ref" and m.x[0] == "v":
                    return m.x[2]
        if p.is_call() and p.mname in ("push_back", "emplace_back"):
            for m in p.c[0].walk():
                if m.k == "ref" and m.x[0] == "v":
                    return m.x[2]
        return None

    def between(self, f, uid, restore):
        """is a binding of the same kind changed between the save and the restore"""
        a = last_name(restore.cq)
        for n in f.walk():
            if n is not restore and self.accessor(n, 1) == a and n.line < restore.line and not any(
                    m.k == "ref" and m.x[0] == "v" and m.x[2] == uid for m in n.args()[0].walk()):
                return True
        return False

    def guard(self, cls, d):
        ctx = self.ctx
        helpers = [self.prog.F[k] for k in self.prog.reach([d]) if self.prog.F[k].cls == cls or k == d.key]
        sets = {}
        for h in helpers:
            for n in h.walk():
                a = self.accessor(n, 1)
                if a:
                    sets.setdefault(a, []).append((h, n))
        if not sets:
            return
        ctx.count("guards of bindings")
        self.late = getattr(self, "late", {})
        self.saved(cls, d, helpers, sets, self.late)
        return set(sets)

    def saved(self, cls, d, helpers, sets, late):
        ctx = self.ctx
        ms = [f for f in self.prog.F.values() if f.cls == cls and f.body is not None and not f.defaulted and f not in helpers]
        for f in ms:
            for n in f.walk():
                a = self.accessor(n, 0)
                m = self.member_kept(n) if a else None
                if m is None:
                    continue
                ctx.count("saved bindings")
                if not self.is_ctor(f):
                    late.setdefault(cls, set()).add(f.key)
                back = [(h, c) for h in helpers for c in h.walk() if c.k == "mem" and last_name(c.x[1] or c.x[0]) == m]
                ok = a in sets and back and all(self.shape(h, c) <= self.shape(f, n) for h, c in back[:1])
                ctx.check(bool(ok), "saved:%s:%s:%s" % (cls.split("<")[0], m, a), d.loc(),
                          "%s saves %s() of a declaration in %s and its destructor does not write it back in every case in which it was saved" % (cls, a, m),
                          "%s: %s written back" % (cls, m))

    def member_kept(self, n):
        p, c = n.p, n
        while p is not None and p.k in ("icast", "cast", "scast", "paren", "temp", "bind", "mat", "ctor", "ilist"):
            c, p = p, p.p
        if p is None:
            return None
        if p.k == "init" and p.x and p.x[0]:
            return last_name(p.x[0])
        t = None
        if p.k in ("bin", "ocall") and (p.x[0] == "=" or p.mname == "operator=") and p.c[-1] is c:
            t = p.c[0] if p.k == "bin" else p.c[-2]
        elif p.is_call() and p.mname in ("push_back", "emplace_back"):
            t = p.c[0]
        if t is not None:
            for m in t.walk():
                if m.k == "mem" and m.c and strip(m.c[0]) is not None and strip(m.c[0]).k == "this" or m.k == "mem" and not m.c:
                    return last_name(m.x[1] or m.x[0])
        return None

    @staticmethod
    def shape(f, n):
        """conditions and extents under which a node runs: names of the functions called and constants in them"""
        res = set()
        p, c = n.p, n
        while p is not None:
            if p.k in ("if", "?:", "cond"):
                e = p.c[2] if p.k == "if" else p.c[0]
                if c is not e:
                    res |= {("if", m.mname) for m in e.walk() if m.is_call()} | {("if", m.x[0]) for m in e.walk() if m.k in ("int", "bool") and str(m.x[0]) != "0"}
            elif p.k == "for":
                for e in p.c[:-1]:
                    if e is not None and e is not c:
                        res |= {("for", m.x[0]) for m in e.walk() if m.k == "int" and str(m.x[0]) != "0"}
            c, p = p, p.p
        return res


def check(ctx):
    c = C30(ctx)
    ctx.count("nested state", len(c.res))
    c.analyse()
    ctx.need("nested state", 6)
    ctx.need("guard constructors", 3)
    ctx.need("guards of bindings", 1)
    ctx.need("uses of guards of bindings", 1)
